From 9369f7b946a39b3ddd667642bcf3575727bd75b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 01/50] hook: size of the initial type database memory
 selectable in a simulation build (MEWA_SIMULATION)

---
 src/lua_userdata.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lua_userdata.hpp b/src/lua_userdata.hpp
index 2028c1d..acb8c77 100644
--- a/src/lua_userdata.hpp
+++ b/src/lua_userdata.hpp
@@ -121,6 +121,11 @@ private:
 	}
 };
 
+#ifdef MEWA_SIMULATION
+/// \brief Simulation hook, only compiled in with MEWA_SIMULATION defined: initial memory size of a type database created from Lua
+extern "C" std::size_t mewa_simulation_typedb_memsize( void);
+#endif
+
 struct mewa_typedb_userdata_t
 {
 public:
@@ -142,7 +147,11 @@ public:
 	void create()
 	{
 		if (impl) delete impl;
+#ifdef MEWA_SIMULATION
+		impl = new mewa::TypeDatabase( mewa_simulation_typedb_memsize());
+#else
 		impl = new mewa::TypeDatabase();
+#endif
 	}
 	void destroy( lua_State* ls) noexcept
 	{
-- 
2.43.0


From 0f803d36c24615af02040ab47e97a967a21f253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 02/50] fix: error raised by a function called without calling
 Lua function on the stack read uninitialized memory

---
 src/lualib_mewa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 2275ac5..7404987 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -55,7 +55,7 @@ extern "C" int luaopen_mewa( lua_State* ls);
 static mewa::Error::Location getLuaScriptErrorLocation( lua_State* ls)
 {
 	lua_Debug ar;
-	lua_getstack( ls, 1, &ar);
+	if (!lua_getstack( ls, 1, &ar)) return mewa::Error::Location(); //... not called from a Lua function
 	lua_getinfo( ls, "S", &ar);
 	return mewa::Error::Location( ar.short_src, ar.linedefined);
 }
-- 
2.43.0


From babf139a7febaa823e63d0184f18118506d4f47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 03/50] fix: iteration over the children of a tree node did not
 terminate for more than one child

---
 src/lualib_mewa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 7404987..c10f3f8 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -1167,7 +1167,7 @@ struct LuaTreeMetaMethods
 			luaL_getmetatable( ls, UD::metatableName());
 			lua_setmetatable( ls, -2);
 
-			iter = (*ud->tree)[ ud->nodeidx].next();
+			iter = (*ud->tree)[ iter].next();
 			lua_pushinteger( ls, iter);
 			lua_replace( ls, lua_upvalueindex(2));
 		}
-- 
2.43.0


From 4b3e76c30bb002380680bc8ac05e91ebc7f6a883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 04/50] fix: negative integer arguments were rounded up, -1 was
 taken as 0

---
 src/lua_parameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 3d5b316..925ef58 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -110,7 +110,7 @@ long mewa::lua::getArgumentAsInteger( const char* functionName, lua_State* ls, i
 	double val = lua_tonumber( ls, li);
 	if (val - std::floor( val) < std::numeric_limits<double>::epsilon()*4)
 	{
-		return (long)(val + std::numeric_limits<double>::epsilon()*4);
+		return (long)std::floor( val + std::numeric_limits<double>::epsilon()*4);
 	}
 	else
 	{
-- 
2.43.0


From 231e28b70854130b2f3849bc2ceddadfd2b26824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 05/50] fix: typedb:scope with an invalid step argument raised
 an error but changed the current scope

---
 src/lualib_mewa.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index c10f3f8..8a9c96f 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -555,8 +555,10 @@ static int mewa_typedb_scope( lua_State* ls)
 		mewa::Scope::Step rt_step = td->curStep;
 		if (nargs >= 2)
 		{
-			td->curScope = mewa::lua::getArgumentAsScope( functionName, ls, 2);
-			td->curStep = (nargs >= 3) ? mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, 3) : (td->curScope.end()-1);
+			mewa::Scope scope = mewa::lua::getArgumentAsScope( functionName, ls, 2);
+			mewa::Scope::Step step = (nargs >= 3) ? mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, 3) : (scope.end()-1);
+			td->curScope = scope;
+			td->curStep = step;
 		}
 		mewa::lua::pushScope( ls, functionName, rt_scope);
 		lua_pushinteger( ls, rt_step);
-- 
2.43.0


From f43edb1b3dbc3cc69feb7b664c8c2421b4d6690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 06/50] fix: identifiers longer than 65529 bytes corrupted
 memory or were truncated

---
 src/identmap.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/identmap.hpp b/src/identmap.hpp
index 4d77000..ec24b29 100644
--- a/src/identmap.hpp
+++ b/src/identmap.hpp
@@ -18,26 +18,29 @@
 #include <utility>
 #include <unordered_map>
 #include <cstring>
+#include <cstddef>
 #include <cstdint>
+#include <limits>
 #include <string_view>
 
 namespace mewa {
 
 struct IdentKey
 {
-	unsigned short size;
+	uint32_t size;
 	char buf[1];
 
 	static const IdentKey* create( std::pmr::memory_resource* memrsc, const std::string_view& src)
 	{
-		constexpr unsigned short maxsize = std::numeric_limits<unsigned short>::max()-4;
-		unsigned short strsize = src.size() > maxsize ? maxsize : src.size();
-		ptrdiff_t offs_buf = reinterpret_cast<const char*>(&((const IdentKey*)nullptr)->buf) - (const char*)nullptr;
-		unsigned short blksize = offs_buf + strsize + 1;
+		constexpr std::size_t maxsize = std::numeric_limits<int32_t>::max();
+		if (src.size() > maxsize) throw Error( Error::InternalBufferOverflow, string_format( "identifier of size %zu", src.size()));
+		std::size_t strsize = src.size();
+		std::size_t offs_buf = offsetof( IdentKey, buf);
+		std::size_t blksize = offs_buf + strsize + 1;
 		blksize += (4 - (blksize & 3)) & 3; //... align size of of key to 0 mod sizeof(uint32_t)
-		unsigned short restsize = blksize - strsize - offs_buf;
+		std::size_t restsize = blksize - strsize - offs_buf;
 		IdentKey* rt = (IdentKey*)memrsc->allocate( blksize, 4/*align*/);
-		rt->size = strsize;
+		rt->size = (uint32_t)strsize;
 		std::memcpy( rt->buf, src.data(), strsize);
 		std::memset( rt->buf + strsize, 0, restsize);
 		return rt;
@@ -49,8 +52,7 @@ struct IdentKey
 	}
 	int alignedsize() const noexcept
 	{
-		ptrdiff_t offs_buf = reinterpret_cast<const char*>(&((const IdentKey*)nullptr)->buf) - (const char*)nullptr;
-		unsigned short blksize = offs_buf + size + 1;
+		std::size_t blksize = offsetof( IdentKey, buf) + size + 1;
 		blksize += (4 - (blksize & 3)) & 3; //... align size of of key to 0 mod sizeof(uint32_t)
 		return blksize / 4;
 	}
-- 
2.43.0


From 31cb3a333ad1581955993374381e8f151080c3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 07/50] fix: the type definition tree listed only the first
 type of a list of overloads

---
 src/typedb.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index a61be70..4c913d5 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -716,19 +716,27 @@ TypeDatabase::TypeDefinitionTree TypeDatabase::getTypeDefinitionTree() const
 {
 	struct TranslateItem
 	{
-		TranslateItem(){}
+		const std::vector<TypeRecord>& typerecMap;
+
+		explicit TranslateItem( const std::vector<TypeRecord>& typerecMap_) :typerecMap(typerecMap_){}
 		ScopeHierarchyTreeNode<TypeDefinitionList> operator()( const TypeTable::TreeNode& node)
 		{
 			ScopeHierarchyTreeNode<TypeDefinitionList> rt( node.scope, {});
 			for (auto const& elem : node.value)
 			{
 				rt.value.push_back( elem.second);
+				for (int tri = typerecMap[ elem.second-1].next; tri; tri = typerecMap[ tri-1].next)
+				{
+					// ... overloads linked to the first definition, without the ones of the type referenced by an alias
+					const TypeRecord& rec = typerecMap[ tri-1];
+					if (rec.inv == elem.first && rec.scope == node.scope) rt.value.push_back( tri);
+				}
 			}
 			return rt;
 		}
 	};
 	Tree<TypeTable::TreeNode> tree = m_typeTable->getTree();
-	TranslateItem translateItem;
+	TranslateItem translateItem( m_typerecMap);
 	return tree.translate< ScopeHierarchyTreeNode<TypeDefinitionList> >( translateItem);
 }
 
-- 
2.43.0


From 7b988c6696de05be309a87f9006025fd02d02978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 08/50] fix: typedb:scope changed the current scope although it
 failed to return the previous one

---
 src/lualib_mewa.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 8a9c96f..c754ce3 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -551,17 +551,18 @@ static int mewa_typedb_scope( lua_State* ls)
 	{
 		int nargs = mewa::lua::checkNofArguments( functionName, ls, 1/*minNofArgs*/, 3/*maxNofArgs*/);
 		mewa::lua::checkStack( functionName, ls, 4);
-		mewa::Scope rt_scope = td->curScope;
-		mewa::Scope::Step rt_step = td->curStep;
+		mewa::Scope scope = td->curScope;
+		mewa::Scope::Step step = td->curStep;
 		if (nargs >= 2)
 		{
-			mewa::Scope scope = mewa::lua::getArgumentAsScope( functionName, ls, 2);
-			mewa::Scope::Step step = (nargs >= 3) ? mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, 3) : (scope.end()-1);
-			td->curScope = scope;
-			td->curStep = step;
+			scope = mewa::lua::getArgumentAsScope( functionName, ls, 2);
+			step = (nargs >= 3) ? mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, 3) : (scope.end()-1);
 		}
-		mewa::lua::pushScope( ls, functionName, rt_scope);
-		lua_pushinteger( ls, rt_step);
+		mewa::lua::pushScope( ls, functionName, td->curScope);
+		lua_pushinteger( ls, td->curStep);
+		// ... change the state after everything that may fail
+		td->curScope = scope;
+		td->curStep = step;
 	}
 	catch (...) { lippincottFunction( ls); }
 	return 2;
-- 
2.43.0


From 92764a2dcbf39d95a4281c23d0a9883979f48617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 09/50] fix: process terminated when the message of an error
 could not be allocated

---
 src/lualib_mewa.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index c754ce3..176a5b1 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -60,6 +60,20 @@ static mewa::Error::Location getLuaScriptErrorLocation( lua_State* ls)
 	return mewa::Error::Location( ar.short_src, ar.linedefined);
 }
 
+/// \brief Push the message of an error built from the arguments, without throwing if there is not enough memory to build it
+template <typename... ARGS>
+static void pushErrorMessage( lua_State* ls, ARGS&&... args)
+{
+	try
+	{
+		mewa::Error err( std::forward<ARGS>( args)...);
+		lua_pushstring( ls, err.what());
+		return;
+	}
+	catch (const std::bad_alloc&) {}
+	lua_pushliteral( ls, "memory allocation error");
+}
+
 /// \note Got this idea from Jason Turner C++ Weekly Ep. 91 "Using Lippincott Functions"
 ///		See also The C++ Standard Library2ndEd. by Nicolai M. Josuttis page 50
 static void lippincottFunction( lua_State* ls)
@@ -76,29 +90,22 @@ static void lippincottFunction( lua_State* ls)
 		}
 		else
 		{
-			mewa::Error errWithLocation( err, getLuaScriptErrorLocation( ls));
-			lua_pushstring( ls, errWithLocation.what());
+			pushErrorMessage( ls, err, getLuaScriptErrorLocation( ls));
 		}
-		lua_error( ls);
 	}
 	catch (const std::runtime_error& err)
 	{
-		mewa::Error errWithLocation( mewa::Error::RuntimeException, err.what(), getLuaScriptErrorLocation( ls));
-		lua_pushstring( ls, errWithLocation.what());
-		lua_error( ls);
+		pushErrorMessage( ls, mewa::Error::RuntimeException, err.what(), getLuaScriptErrorLocation( ls));
 	}
 	catch (const std::bad_alloc&)
 	{
-		mewa::Error errWithLocation( mewa::Error::MemoryAllocationError, getLuaScriptErrorLocation( ls));
-		lua_pushstring( ls, errWithLocation.what());
-		lua_error( ls);
+		pushErrorMessage( ls, mewa::Error::MemoryAllocationError, getLuaScriptErrorLocation( ls));
 	}
 	catch (...)
 	{
-		mewa::Error errWithLocation( mewa::Error::UnexpectedException, getLuaScriptErrorLocation( ls));
-		lua_pushstring( ls, errWithLocation.what());
-		lua_error( ls);
+		pushErrorMessage( ls, mewa::Error::UnexpectedException, getLuaScriptErrorLocation( ls));
 	}
+	lua_error( ls);
 }
 
 static int destroy_memblock( lua_State* ls)
-- 
2.43.0


From a2ce3be1079ddcdb038a3e7430e2e8ecfbc3b747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 10/50] fix: a type database call that failed for lack of
 memory left the database inconsistent

---
 src/identmap.hpp        | 14 ++------------
 src/memory_resource.hpp |  8 ++++++++
 src/scope.hpp           | 12 +++++++++++-
 src/typedb.cpp          | 31 ++++++++++++++++++++++++-------
 4 files changed, 45 insertions(+), 20 deletions(-)

diff --git a/src/identmap.hpp b/src/identmap.hpp
index ec24b29..62025ee 100644
--- a/src/identmap.hpp
+++ b/src/identmap.hpp
@@ -191,7 +191,7 @@ public:
 		if (fi == ParentClass::end())
 		{
 			env = IdentKeyEnvelop( IdentKey::create( m_str_memrsc, str));
-			m_inv.reserve( growSize());
+			reserveForAppend( m_inv);
 			rt = (int)m_inv.size()+1;
 			if (ParentClass::insert( {env, rt}).second == false)
 			{
@@ -215,7 +215,7 @@ public:
 		return (fi == ParentClass::end()) ? 0 : fi->second;
 	}
 
-	std::uint64_t hash( const std::string_view& str) const noexcept
+	std::uint64_t hash( const std::string_view& str) const
 	{
 		int buffer[ 2048];
 		mewa::monotonic_buffer_resource local_memrsc( buffer, sizeof buffer);
@@ -234,16 +234,6 @@ public:
 		return m_inv.size();
 	}
 
-private:
-	std::size_t growSize() const noexcept
-	{
-		// ... array duplication strategy
-		enum {InitSize=1<<14};
-		std::size_t mm = InitSize;
-		while (mm <= m_inv.size() && mm > InitSize) mm*=2;
-		return mm;
-	}
-
 private:
 	std::pmr::memory_resource* m_str_memrsc;
 	std::vector<const IdentKey*> m_inv;
diff --git a/src/memory_resource.hpp b/src/memory_resource.hpp
index 24ac975..a5afc6b 100644
--- a/src/memory_resource.hpp
+++ b/src/memory_resource.hpp
@@ -18,6 +18,14 @@
 
 namespace mewa {
 
+/// \brief Ensure that a number of elements can be appended to a vector without allocation, so that appending them cannot fail
+template <class VECTOR>
+inline void reserveForAppend( VECTOR& ar, std::size_t nofElements=1)
+{
+	std::size_t required = ar.size() + nofElements;
+	if (required > ar.capacity()) ar.reserve( required > 2 * ar.size() ? required : 2 * ar.size());
+}
+
 /// \brief Memory resource that throws bad_alloc on every bad_alloc
 /// \note Used as upstream for monotonic_buffer_resource to check that the upstream is never used
 class bad_alloc_memory_resource : public std::pmr::memory_resource
diff --git a/src/scope.hpp b/src/scope.hpp
index 611430a..259eb4c 100644
--- a/src/scope.hpp
+++ b/src/scope.hpp
@@ -184,6 +184,12 @@ public:
 		return m_ar.size();
 	}
 
+	/// \brief Ensure that the next value can be added without allocation, so that adding it cannot fail
+	void reserveNext()
+	{
+		reserveForAppend( m_ar);
+	}
+
 	int pushUpValue( const Scope scope, const VALTYPE value, int uplink)
 	{
 		int rt = m_ar.size();
@@ -432,6 +438,7 @@ public:
 		int uplink = (rightnode == m_map.end()) ? -1 : m_invtree.rightNeighborUpLink( rightnode->second, scope);
 		int newindex = -1;
 
+		m_invtree.reserveNext();
 		auto ins = m_map.insert( {scope.end(), m_invtree.nextIndex()});
 		if (ins.second/*insert took place*/)
 		{
@@ -612,6 +619,7 @@ public:
 			: m_invtree.rightNeighborUpLink( rightnode->second, scope);
 		int newindex = -1;
 
+		m_invtree.reserveNext();
 		auto ins = m_map.insert( {sk, m_invtree.nextIndex()} );
 		if (ins.second/*insert took place*/)
 		{
@@ -648,6 +656,7 @@ public:
 			: m_invtree.rightNeighborUpLink( rightnode->second, scope);
 		int newindex = -1;
 
+		m_invtree.reserveNext();
 		auto ins = m_map.insert( {sk, m_invtree.nextIndex()});
 		if (ins.second/*insert took place*/)
 		{
@@ -864,6 +873,7 @@ public:
 		if (weight < 0.0) throw Error( Error::BadRelationWeight, string_format("%.4f",weight));
 
 		std::uint8_t tagval = TagMask::tagValFromTag( tag);
+		reserveForAppend( m_list);
 		int newlistindex = m_list.size();
 		int li = m_map.getOrSet( scope, left, newlistindex);
 		int prev_li = -1;
@@ -891,7 +901,7 @@ public:
 		}
 	}
 
-	std::pmr::vector<ResultElement> get( const Scope::Step step, const RELNODETYPE& key, const TagMask& selectTags, std::pmr::memory_resource* res_memrsc) const noexcept
+	std::pmr::vector<ResultElement> get( const Scope::Step step, const RELNODETYPE& key, const TagMask& selectTags, std::pmr::memory_resource* res_memrsc) const
 	{
 		int local_membuffer[ 2048];
 		mewa::monotonic_buffer_resource local_memrsc( local_membuffer, sizeof local_membuffer);
diff --git a/src/typedb.cpp b/src/typedb.cpp
index 4c913d5..7e27c7b 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -84,12 +84,25 @@ void TypeDatabase::setObjectInstance( const std::string_view& name, const Scope&
 	if (handle <= 0) throw Error( Error::InvalidHandle, string_format( "%d", handle));
 
 	int objid = m_identMap->get( name);
-	auto ins = m_objidMap->insert( {objid, m_objAr.size()});
-	if (ins.second == true/*insert took place*/)
+	auto oi = m_objidMap->find( objid);
+	if (oi != m_objidMap->end())
+	{
+		m_objAr[ oi->second].set( scope, handle/*value*/);
+	}
+	else
 	{
 		m_objAr.push_back( ObjectAccess( m_memory->resource_objtab(), -1/*nullval*/, m_memory->nofObjectInstanceTableInitBuckets()));
+		try
+		{
+			m_objAr.back().set( scope, handle/*value*/);
+			m_objidMap->insert( {objid, (int)m_objAr.size()-1});
+		}
+		catch (...)
+		{
+			m_objAr.pop_back();
+			throw;
+		}
 	}
-	m_objAr[ ins.first->second].set( scope, handle/*value*/);
 }
 
 int TypeDatabase::getObjectInstance( const std::string_view& name, const Scope::Step step) const
@@ -213,7 +226,14 @@ int TypeDatabase::defineType( const Scope& scope, int contextType, const std::st
 	if (constructor < 0) throw Error( Error::InvalidHandle, string_format( "%d", constructor));
 	if (contextType < 0 || contextType > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", contextType));
 
-	m_typerecMap.reserve( m_typerecMap.size()+1);
+	TypeDef typeDef( contextType, m_identMap->get( name));
+
+	// Allocate everything needed before changing anything, so that a failure leaves the database unchanged:
+	reserveForAppend( m_typerecMap);
+	reserveForAppend( m_parameterMap, parameter.size());
+
+	int typerec = m_typerecMap.size()+1;
+	int prev_typerec = m_typeTable->getOrSet( scope, typeDef, typerec);
 
 	int parameterlen = parameter.size();
 	int parameteridx;
@@ -226,11 +246,8 @@ int TypeDatabase::defineType( const Scope& scope, int contextType, const std::st
 		parameteridx = (int)m_parameterMap.size()+1;
 		m_parameterMap.insert( m_parameterMap.end(), parameter.begin(), parameter.end());
 	}
-	int typerec = m_typerecMap.size()+1;
-	TypeDef typeDef( contextType, m_identMap->get( name));
 	m_typerecMap.push_back( TypeRecord( constructor, scope, parameteridx, parameterlen, typeDef));
 
-	int prev_typerec = m_typeTable->getOrSet( scope, typeDef, typerec);
 	if (prev_typerec/*already exists*/)
 	{
 		// Check if there is a conflict, and find the end of the single linked list (-> lastListIndex):
-- 
2.43.0


From 0356ee0d61135cbcda84391977f2284a67226152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 11/50] fix: failing allocation of the initial memory block of
 the type database was ignored

---
 src/typedb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typedb.hpp b/src/typedb.hpp
index 9564244..d7382a5 100644
--- a/src/typedb.hpp
+++ b/src/typedb.hpp
@@ -433,7 +433,7 @@ private:
 		{
 			size = size_;
 			ptr = std::aligned_alloc( 8/*alignment*/, size);
-			if (!ptr) std::bad_alloc();
+			if (!ptr) throw std::bad_alloc();
 		}
 		~MemoryBlock()
 		{
-- 
2.43.0


From 4261d4f136875d71b5b2f08956595c9398ef4556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 12/50] fix: a definition in an empty scope ran past the end of
 the table or failed after a partial insert

---
 src/scope.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scope.hpp b/src/scope.hpp
index 259eb4c..cadbc30 100644
--- a/src/scope.hpp
+++ b/src/scope.hpp
@@ -434,6 +434,7 @@ public:
 
 	void set( const Scope scope, const VALTYPE value)
 	{
+		if (scope.start() >= scope.end()) throw Error( Error::ScopeHierarchyError, scope.tostring());
 		auto rightnode = m_map.upper_bound( scope.end());
 		int uplink = (rightnode == m_map.end()) ? -1 : m_invtree.rightNeighborUpLink( rightnode->second, scope);
 		int newindex = -1;
@@ -612,6 +613,7 @@ public:
 
 	bool set( const Scope scope, const KEYTYPE& key, const VALTYPE& value)
 	{
+		if (scope.start() >= scope.end()) throw Error( Error::ScopeHierarchyError, scope.tostring());
 		ScopedKey<KEYTYPE> sk( key, scope.end());
 		auto rightnode = m_map.upper_bound( sk);
 		int uplink = (rightnode == m_map.end() || rightnode->first.key() != key)
@@ -648,6 +650,7 @@ public:
 
 	VALTYPE getOrSet( const Scope scope, const KEYTYPE& key, const VALTYPE value)
 	{
+		if (scope.start() >= scope.end()) throw Error( Error::ScopeHierarchyError, scope.tostring());
 		VALTYPE rt = m_invtree.nullval();
 		ScopedKey<KEYTYPE> sk( key, scope.end());
 		auto rightnode = m_map.upper_bound( sk);
-- 
2.43.0


From 8e3aec1f477601c90622e0064c64d216aee5ee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 13/50] fix: tokens recognized by only one of their
 alternatives

The set of characters that can start a token was calculated from the first
alternative of a pattern only and without considering the multiplicator '?'
or multiplicators of single characters. Sources containing a token starting
with another alternative were refused with a bad character error. Ranges up to
the highest ASCII character or above lead to an endless loop.
---
 src/lexer.cpp | 247 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 155 insertions(+), 92 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index dbb09e7..c9487dd 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -58,143 +58,206 @@ static char parseFirstChar( char const*& si, bool allowNonAscii)
 		{
 			throw Error( Error::IllegalFirstCharacterInLexer, parseChar(si));
 		}
-		si += len;
+		for (; len && *si; --len) ++si;
 		return rt;
 	}
 }
 
-static bool extractFirstCharacters( std::string& res, char const*& si, char eb)
+static void appendCharRange( std::string& res, unsigned int from, unsigned int to)
 {
-	bool empty = true;
-	while (*si && *si != eb)
+	for (; from <= to; ++from) res.push_back( (char)(unsigned char)from);
+}
+
+/// \brief Append the characters matched by a character class escape like '\d' in a regular expression
+static bool parseCharClassEscape( std::string& res, char const*& si)
+{
+	if (*si != '\\') return false;
+	switch (si[1])
 	{
-		if (*si == '-' && !empty)
-		{
-			++si;
-			char from = res[ res.size()-1];
-			if (!*si || *si == eb)
-			{
-				res.push_back( from);
-				break;
-			}
-			else
-			{
-				char to = parseFirstChar( si, false/*!allowNonAscii*/);
-				if (to < from) std::swap( to, from);
-				for (++from; from <= to; ++from)
-				{
-					res.push_back( from);
-				}
-			}
-		}
-		else
-		{
-			res.push_back( parseFirstChar( si, false/*!allowNonAscii*/));
-		}
-		empty = false;
+		case 'd': appendCharRange( res, '0', '9'); break;
+		case 'w': appendCharRange( res, 'a', 'z'); appendCharRange( res, 'A', 'Z'); appendCharRange( res, '0', '9'); res.push_back( '_'); break;
+		case 'D': case 'W': case 'S': appendCharRange( res, 33, 255); break;
+		case 's': case 'n': case 'r': case 't': case 'f': case 'v': break; //... spaces are skipped by the scanner, never first character of a lexem
+		default: return false;
 	}
-	if (!*si) throw Error( Error::SyntaxErrorInLexer);
-	++si;
-	return !empty;
+	si += 2;
+	return true;
+}
+
+static std::string inverseCharset( const std::string& charset)
+{
+	std::string rt;
+	std::bitset<256> cset;
+	for (char ch : charset) cset.set( (unsigned char)ch);
+	for (int ii=33; ii<256; ++ii) if (!cset.test(ii)) {rt.push_back(ii);}
+	return rt;
 }
 
-static bool skipBrackets( char const*& si, char eb)
+/// \brief Append the characters matched by a character class '[...]', the cursor points to the first character after the opening bracket
+static void extractFirstCharacters( std::string& res, char const*& si)
 {
-	char sb = *si++;
-	int cnt = 1;
+	std::string chars;
+	bool complete = true;
+	bool inverse = (*si == '^');
+	if (inverse) ++si;
 
-	bool empty = true;
-	for (; *si && cnt > 0; ++si)
+	while (*si && *si != ']')
 	{
-		if (*si == eb)
+		if (*si == '[' && (si[1] == ':' || si[1] == '.' || si[1] == '='))
 		{
-			--cnt;
+			char eb = si[1];
+			for (si += 2; *si && !(si[0] == eb && si[1] == ']'); ++si){}
+			if (!*si) throw Error( Error::SyntaxErrorInLexer);
+			si += 2;
+			complete = false; //... named class, take all characters as candidates
 		}
-		else if (*si == sb)
-		{
-			++cnt;
-		}
-		else
+		else if (!parseCharClassEscape( chars, si))
 		{
-			empty = false;
+			unsigned char from = parseFirstChar( si, false/*!allowNonAscii*/);
+			unsigned char to = from;
+			if (si[0] == '-' && si[1] && si[1] != ']')
+			{
+				++si;
+				to = parseFirstChar( si, false/*!allowNonAscii*/);
+				if (to < from) std::swap( to, from);
+			}
+			appendCharRange( chars, from, to);
 		}
 	}
-	if (!*si && cnt != 0) throw Error( Error::SyntaxErrorInLexer);
-	return !empty;
+	if (!*si) throw Error( Error::SyntaxErrorInLexer);
+	++si;
+	if (!complete)
+	{
+		appendCharRange( res, 33, 255);
+	}
+	else
+	{
+		res.append( inverse ? inverseCharset( chars) : chars);
+	}
 }
 
-static bool skipMultiplicator( char const*& si)
+static void skipCharacterClass( char const*& si)
 {
-	if (*si)
+	if (*si == '^') ++si;
+	for (; *si && *si != ']'; ++si)
 	{
-		if (*si == '*')
+		if (*si == '\\' && si[1]) ++si;
+		else if (*si == '[' && (si[1] == ':' || si[1] == '.' || si[1] == '='))
 		{
+			char eb = si[1];
+			for (si += 2; *si && !(si[0] == eb && si[1] == ']'); ++si){}
+			if (!*si) return;
 			++si;
-			return false;
-		}
-		if (*si == '{')
-		{
-			bool empty = (si[1] == '0' && si[2] == ',');
-			(void)skipBrackets( si, '}');
-			return !empty;
 		}
 	}
-	return true;
+	if (*si) ++si;
 }
 
-static std::string inverseCharset( const std::string& charset)
+/// \brief Skip the multiplicator of an item in a regular expression
+/// \return false, if the multiplicator allows the item to be missing
+static bool skipMultiplicator( char const*& si)
 {
-	std::string rt;
-	std::bitset<256> cset;
-	for (char ch : charset) cset.set( ch);
-	for (int ii=33; ii<256; ++ii) if (!cset.test(ii)) {rt.push_back(ii);}
+	bool rt = true;
+	if (*si == '*' || *si == '?')
+	{
+		rt = false;
+		++si;
+	}
+	else if (*si == '+')
+	{
+		++si;
+	}
+	else if (*si == '{')
+	{
+		if (si[1] == '0' && (si[2] == ',' || si[2] == '}')) rt = false;
+		for (; *si && *si != '}'; ++si){}
+		if (!*si) throw Error( Error::SyntaxErrorInLexer);
+		++si;
+	}
+	else
+	{
+		return true;
+	}
+	if (*si == '?') ++si; //... non greedy
 	return rt;
 }
 
-std::string LexemDef::activation( const std::string& source_)
+static bool parseActivationAlternatives( std::string& res, char const*& si, bool collect);
+
+/// \brief Collect the possible first characters of a sequence of items in a regular expression
+/// \return true, if the sequence can match to the empty string
+static bool parseActivationSequence( std::string& res, char const*& si, bool collect)
 {
-	std::string rt;
 	bool empty = true;
-	char const* si = source_.c_str();
-	if (*si == '^') ++si;
-	while (empty)
+	while (*si && *si != '|' && *si != ')')
 	{
-		if (*si == '\0')
+		bool collectItem = (collect && empty);
+		bool emptyItem = false;
+		if (*si == '[')
 		{
-			return rt;
+			++si;
+			if (collectItem) extractFirstCharacters( res, si); else skipCharacterClass( si);
 		}
-		else if (*si == '[')
+		else if (*si == '(')
 		{
 			++si;
-			bool inverse = false;
-			if (*si == '^')
+			bool assertion = false;
+			if (si[0] == '?' && (si[1] == ':' || si[1] == '=' || si[1] == '!'))
 			{
-				inverse = true;
-				++si;
+				assertion = (si[1] != ':');
+				si += 2;
 			}
-			bool hasCharacters = extractFirstCharacters( rt, si, ']');
-			bool potentiallyIgnored = (skipMultiplicator( si) == false);
-			empty = !hasCharacters || potentiallyIgnored;
-			if (inverse) rt = inverseCharset( rt);
+			emptyItem = parseActivationAlternatives( res, si, collectItem && !assertion) || assertion;
+			if (*si == ')') ++si;
 		}
-		else if (*si == '(')
+		else if (*si == '^' || *si == '$')
 		{
-			for (;;)
-			{
-				char const* start = si+1;
-				bool hasCharacters = skipBrackets( si, ')');
-				bool potentiallyIgnored = (skipMultiplicator( si) == false);
-				empty = !hasCharacters || potentiallyIgnored;
-				rt.append( activation( std::string( start, si-start-1)));
-				if (*si != '|') break;
-				++si;
-			}
+			++si;
+			emptyItem = true;
 		}
-		else
+		else if (*si == '\\' && (si[1] == 'b' || si[1] == 'B'))
 		{
-			rt.push_back( parseFirstChar( si, true/*allowNonAscii*/));
-			empty = false;
+			si += 2;
+			emptyItem = true;
 		}
+		else if (!collectItem)
+		{
+			si += (*si == '\\' && si[1]) ? 2 : 1;
+		}
+		else if (*si == '.')
+		{
+			++si;
+			appendCharRange( res, 33, 255);
+		}
+		else if (!parseCharClassEscape( res, si))
+		{
+			res.push_back( parseFirstChar( si, true/*allowNonAscii*/));
+		}
+		if (!skipMultiplicator( si)) emptyItem = true;
+		empty &= emptyItem;
+	}
+	return empty;
+}
+
+static bool parseActivationAlternatives( std::string& res, char const*& si, bool collect)
+{
+	bool rt = parseActivationSequence( res, si, collect);
+	while (*si == '|')
+	{
+		++si;
+		if (parseActivationSequence( res, si, collect)) rt = true;
+	}
+	return rt;
+}
+
+std::string LexemDef::activation( const std::string& source_)
+{
+	std::string rt;
+	char const* si = source_.c_str();
+	while (*si)
+	{
+		(void)parseActivationAlternatives( rt, si, true/*collect*/);
+		if (*si) ++si; //... unbalanced closing bracket
 	}
 	return rt;
 }
-- 
2.43.0


From 2c7b30c8c51ad31ce81a6e8608c720a0155ffeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 14/50] fix: keywords sharing only the first character with the
 source matched with length zero

The lexer returned the keyword without consuming anything, the parser looped
until the stack was exhausted or reported an error pointing to a token that does
not exist in the source.
---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index c9487dd..b40b335 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -655,7 +655,7 @@ Lexem Lexer::next( Scanner& scanner) const
 			{
 				if (idx >= (int)m_defar.size()) throw Error( Error::ArrayBoundReadInLexer);
 				auto mm = m_defar[ idx].match( start, scanner.restsize());
-				if (maxlen <= mm.second && (maxlen < mm.second || m_defar[ idx].keyword())) //... keywords preferred if length is the same
+				if (mm.second > 0 && maxlen <= mm.second && (maxlen < mm.second || m_defar[ idx].keyword())) //... keywords preferred if length is the same
 				{
 					maxlen = mm.second;
 					matchstart = mm.first.data();
-- 
2.43.0


From 94b5812b98f8e368357c227bc0334ceb3c0ced03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:25 +0000
Subject: [PATCH 15/50] fix: endless loop on a token declared with %IGNORE

The lexer did not consume the token to ignore.
---
 src/lexer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index b40b335..8f5d727 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -688,6 +688,10 @@ Lexem Lexer::next( Scanner& scanner) const
 				scanner.next( maxlen);
 				return Lexem( m_defar[ matchidx].name(), m_defar[ matchidx].id(), std::string_view( matchstart, matchsize), line);
 			}
+			else
+			{
+				scanner.next( maxlen); //... token ignored, fetch next lexem
+			}
 		}
 	}
 }
@@ -744,7 +748,7 @@ Lexer::Lexer( const std::vector<Definition>& definitions)
 			case Definition::BadLexem:		defineBadLexem( def.line(), def.name()); break;
 			case Definition::NamedPatternLexem:	defineLexem( def.line(), def.name(), def.pattern(), def.select()); break;
 			case Definition::KeywordLexem:		defineLexem( def.name()); break;
-			case Definition::IgnoreLexem:		defineIgnore( def.line(), def.pattern());
+			case Definition::IgnoreLexem:		defineIgnore( def.line(), def.ignore()); break;
 			case Definition::EolnComment:		defineEolnComment( def.line(), def.start()); break;
 			case Definition::BracketComment:	defineBracketComment( def.line(), def.start(), def.end()); break;
 			case Definition::IndentLexems:		m_indentLexems = {def.line(),def.openind(),def.closeind(),def.newline(),def.tabsize()}; break;
-- 
2.43.0


From 44597b046d43f490bdaee9cd38b6be99150122b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 16/50] fix: indentation not closed if the source ends with a
 comment without end of line

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 8f5d727..493a368 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -633,7 +633,7 @@ Lexem Lexer::next( Scanner& scanner) const
 				{
 					if (!scanner.scan( "\n"))
 					{
-						return Lexem( scanner.line()); //... no EOLN then return EOF
+						scanner.next( scanner.restsize()); //... no EOLN then skip to the end of the source
 					}
 					break; //... comment skipped, fetch next lexem
 				}
-- 
2.43.0


From c979d40eea6cdb7294b456b0eb9274f6f9925c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 17/50] fix: source after a null character ignored

The lexer reported the end of the source at the first null character, the rest
of the source was silently dropped. It is now reported as bad character.
---
 src/lexer.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 493a368..b17ee19 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -299,8 +299,9 @@ char const* Scanner::next( int incr)
 
 bool Scanner::scan( const char* str)
 {
-	char const* end = std::strstr( m_srcitr, str);
-	return (end && next( end-m_srcitr + std::strlen(str)));
+	std::size_t len = std::strlen( str);
+	std::size_t pos = m_src.find( str, m_srcitr - m_src.data(), len);
+	return (pos != std::string_view::npos && next( pos + len - (m_srcitr - m_src.data())));
 }
 
 int Scanner::indentCount( int tabSize) const noexcept
@@ -610,6 +611,12 @@ Lexem Lexer::next( Scanner& scanner) const
 	for (;;)
 	{
 		char const* start = scanner.next();
+		if (*start == '\0' && scanner.restsize() > 0)
+		{
+			int line = scanner.line(); //... null character that is not the end of the source
+			scanner.next( 1);
+			return Lexem( m_errorLexem.value, -1/*id*/, std::string_view( start, 1), line);
+		}
 		if (*start == '\0')
 		{
 			if (m_indentLexems.defined() && scanner.getEofIndentToken() == Scanner::IndentClose)
-- 
2.43.0


From eeaf56e88a10c78796787d8699007c60026774ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 18/50] fix: pattern of a keyword reached until the end of the
 grammar file

The pattern was built from all characters following the keyword in the source
buffer instead of the keyword only.
---
 src/lexer.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index b17ee19..0a95d19 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -523,14 +523,13 @@ void Lexer::defineIndentLexems( int line, const std::string_view& open, const st
 static std::string stringToRegex( const std::string_view& opr)
 {
 	std::string rt;
-	char const* si = opr.data();
-	for (; *si; ++si)
+	for (char ch : opr)
 	{
-		if (0!=std::strchr( REGEX_ESCAPE_CHARS, *si))
+		if (ch && 0!=std::strchr( REGEX_ESCAPE_CHARS, ch))
 		{
 			rt.push_back( '\\');
 		}
-		rt.push_back( *si);
+		rt.push_back( ch);
 	}
 	return rt;
 }
-- 
2.43.0


From 2ac71146c1365d8114992b25e01328bbfd04e9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 19/50] fix: wrong token identifiers if a token is declared
 after a keyword was used

The identifiers of the keywords and tokens were assigned in the order of their
definition in the grammar when building the tables, but with the tokens first
when loading the automaton.
---
 src/automaton_parser.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index da02090..90700b0 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -194,6 +194,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 		std::string_view patternstr;
 		std::string_view cmdname;
 		std::vector<std::string_view> cmdargs;
+		std::vector<Lexem> keywords;
 		std::multimap<std::string_view, std::size_t> prodmap;
 		std::map<std::string_view, int> nonTerminalIdMap;
 		std::set<std::string_view> usedSet;
@@ -425,7 +426,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 					}
 					else if (state == ParseProductionElement)
 					{
-						if (!rt.lexer.lexemId( lexem.value())) rt.lexer.defineLexem( lexem.value());
+						keywords.push_back( lexem);
 						rt.prodlist.back().right.push_back( ProductionNodeDef( lexem.value(), false/*not a symbol, raw string implicitly defined*/));
 					}
 					else if (state == ParseCallArg)
@@ -617,6 +618,15 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 		}
 		if (state != Init) throw Error( Error::UnexpectedEofInGrammarDef);
 
+		// Define keywords after all tokens, because that is the order they get their identifiers when the automaton is loaded:
+		const Lexem eof( lexem);
+		for (auto const& keyword : keywords)
+		{
+			lexem = keyword;
+			if (!rt.lexer.lexemId( keyword.value())) rt.lexer.defineLexem( keyword.value());
+		}
+		lexem = eof;
+
 		// [2] Label grammar production elements:
 		for (auto& prod : rt.prodlist)
 		{
-- 
2.43.0


From 3f80650fd9b82ec1837022eca91632faf4b29d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 20/50] fix: state of compiler:run kept after a run or a
 failure

The output of previous runs of the same compiler instance was added to the output
again. After a failure the global functions print and debug stayed redirected
and the debug output file stayed open. The function print_section was never
restored.
---
 src/lua_userdata.hpp | 28 +++++++++++++++++-
 src/lualib_mewa.cpp  | 68 ++++++++++++++++++++++++++++----------------
 2 files changed, 70 insertions(+), 26 deletions(-)

diff --git a/src/lua_userdata.hpp b/src/lua_userdata.hpp
index acb8c77..9648848 100644
--- a/src/lua_userdata.hpp
+++ b/src/lua_userdata.hpp
@@ -73,6 +73,32 @@ struct mewa_compiler_userdata_t
 	typedef std::map<std::string,std::string> OutputSectionMap;
 	OutputSectionMap outputSectionMap;
 
+	/// \brief Output of one compiler run
+	struct OutputContext
+	{
+		FILE* debugFileHandle;
+		OutputBuffer outputBuffer;
+		OutputSectionMap outputSectionMap;
+
+		OutputContext() noexcept
+			:debugFileHandle(nullptr),outputBuffer(),outputSectionMap(){}
+
+		/// \note Leaves nothing to free for the destructor, that is not called if Lua leaves the function with a longjmp
+		void clear() noexcept
+		{
+			closeFile( debugFileHandle);
+			OutputBuffer().swap( outputBuffer);
+			outputSectionMap.clear();
+		}
+	};
+
+	void swapOutput( OutputContext& o) noexcept
+	{
+		std::swap( debugFileHandle, o.debugFileHandle);
+		outputBuffer.swap( o.outputBuffer);
+		outputSectionMap.swap( o.outputSectionMap);
+	}
+
 	void init()
 	{
 		debugFileHandle = nullptr;
@@ -114,7 +140,7 @@ struct mewa_compiler_userdata_t
 	}
 
 private:
-	void closeFile( FILE*& fileHandle)
+	static void closeFile( FILE*& fileHandle) noexcept
 	{
 		if (fileHandle && fileHandle != ::stdout && fileHandle != ::stderr) std::fclose( fileHandle);
 		fileHandle = nullptr;
diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 176a5b1..759aaa9 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -52,10 +52,10 @@ extern "C" {
 
 extern "C" int luaopen_mewa( lua_State* ls);
 
-static mewa::Error::Location getLuaScriptErrorLocation( lua_State* ls)
+static mewa::Error::Location getLuaScriptErrorLocation( lua_State* ls, int level)
 {
 	lua_Debug ar;
-	if (!lua_getstack( ls, 1, &ar)) return mewa::Error::Location(); //... not called from a Lua function
+	if (!lua_getstack( ls, level, &ar)) return mewa::Error::Location(); //... not called from a Lua function
 	lua_getinfo( ls, "S", &ar);
 	return mewa::Error::Location( ar.short_src, ar.linedefined);
 }
@@ -76,7 +76,8 @@ static void pushErrorMessage( lua_State* ls, ARGS&&... args)
 
 /// \note Got this idea from Jason Turner C++ Weekly Ep. 91 "Using Lippincott Functions"
 ///		See also The C++ Standard Library2ndEd. by Nicolai M. Josuttis page 50
-static void lippincottFunction( lua_State* ls)
+/// \param[in] level level of the calling Lua function in the call stack, 1 for the caller of the current function
+static void lippincottFunction( lua_State* ls, int level=1)
 {
 	try
 	{
@@ -90,20 +91,20 @@ static void lippincottFunction( lua_State* ls)
 		}
 		else
 		{
-			pushErrorMessage( ls, err, getLuaScriptErrorLocation( ls));
+			pushErrorMessage( ls, err, getLuaScriptErrorLocation( ls, level));
 		}
 	}
 	catch (const std::runtime_error& err)
 	{
-		pushErrorMessage( ls, mewa::Error::RuntimeException, err.what(), getLuaScriptErrorLocation( ls));
+		pushErrorMessage( ls, mewa::Error::RuntimeException, err.what(), getLuaScriptErrorLocation( ls, level));
 	}
 	catch (const std::bad_alloc&)
 	{
-		pushErrorMessage( ls, mewa::Error::MemoryAllocationError, getLuaScriptErrorLocation( ls));
+		pushErrorMessage( ls, mewa::Error::MemoryAllocationError, getLuaScriptErrorLocation( ls, level));
 	}
 	catch (...)
 	{
-		pushErrorMessage( ls, mewa::Error::UnexpectedException, getLuaScriptErrorLocation( ls));
+		pushErrorMessage( ls, mewa::Error::UnexpectedException, getLuaScriptErrorLocation( ls, level));
 	}
 	lua_error( ls);
 }
@@ -414,7 +415,8 @@ static void copyFileNameToBuffer( char* buf, std::size_t bufsize, std::string_vi
 	std::memcpy( buf, str.data(), str.size());
 	buf[ str.size()] = 0;
 }
-static int mewa_compiler_run( lua_State* ls)
+
+static int mewa_compiler_run_protected( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "compiler:run( target, options, inputfile, [,outputfile [,dbgoutput]])";
 	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)luaL_checkudata( ls, 1, mewa_compiler_userdata_t::metatableName());
@@ -456,14 +458,6 @@ static int mewa_compiler_run( lua_State* ls)
 				if (!cp->debugFileHandle) throw mewa::Error( (mewa::Error::Code) errno, debugFileName);
 			}
 		}
-		lua_getglobal( ls, "_G");		// STK: table=_G
-		lua_pushliteral( ls, "print");		// STK: table=_G, key=print
-		lua_pushliteral( ls, "print");		// STK: table=_G, key=print, key=print
-		lua_gettable( ls, -3);			// STK: table=_G, key=print, value=function
-		lua_pushliteral( ls, "debug");		// STK: table=_G, key=print, value=function key=debug
-		lua_pushliteral( ls, "debug");		// STK: table=_G, key=print, value=function key=debug key=debug
-		lua_gettable( ls, -5);			// STK: table=_G, key=print, value=function key=debug value=function
-
 		lua_getglobal( ls, "_G");
 		lua_pushlightuserdata( ls, cp);
 		luaL_setfuncs( ls, g_printlib, 1/*number of closure elements*/);
@@ -492,14 +486,6 @@ static int mewa_compiler_run( lua_State* ls)
 			}
 		}
 
-		// Restore old print function that has been left on the stack:
-					//STK: table=_G, key=print, value=function key=debug, value=function
-		lua_settable( ls, -5);	//STK: table=_G, key=print, value=function
-		lua_settable( ls, -3);	//STK: table=_G
-		lua_pop( ls, 1);	//STK:
-		cp->closeOutput();
-		lua_pop( ls, 3);	// ... destroy strings on lua stack created with move_string_on_lua_stack and options
-
 		if (g_called_deprecated_get_types)
 		{
 			std::cerr << "Warning: Called deprecated function typedb:get_types. This function has been renamed to typedb:this_types (issue #4)" << std::endl;
@@ -509,7 +495,39 @@ static int mewa_compiler_run( lua_State* ls)
 			std::cerr << "Warning: Called deprecated function typedb:get_type. This function has been renamed to typedb:this_type (issue #4)" << std::endl;
 		}
 	}
-	catch (...) { lippincottFunction( ls); }
+	catch (...) { lippincottFunction( ls, 2/*level of the caller of compiler:run*/); }
+	return 0;
+}
+
+static int mewa_compiler_run( lua_State* ls)
+{
+	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)luaL_checkudata( ls, 1, mewa_compiler_userdata_t::metatableName());
+	int nargs = lua_gettop( ls);
+	luaL_checkstack( ls, nargs + 6, "compiler:run");
+
+	// Save the global functions redirected:
+	lua_getglobal( ls, "_G");			// STK: [ARG1]...[ARGN] [_G]
+	for (const luaL_Reg* fi = g_printlib; fi->name; ++fi)
+	{
+		lua_getfield( ls, nargs+1, fi->name);	// STK: [ARG1]...[ARGN] [_G] [FUNC1]...
+	}
+	lua_pushcfunction( ls, &mewa_compiler_run_protected);
+	for (int li=1; li<=nargs; ++li) lua_pushvalue( ls, li);
+
+	mewa_compiler_userdata_t::OutputContext savedOutput;
+	cp->swapOutput( savedOutput);			// ... every run starts with an empty output
+	int rc = lua_pcall( ls, nargs, 0/*nresults*/, 0/*no error handler*/);
+	cp->swapOutput( savedOutput);
+	savedOutput.clear();
+
+	// Restore the global functions redirected, also in case of an error:
+	int fidx = nargs+1;
+	for (const luaL_Reg* fi = g_printlib; fi->name; ++fi)
+	{
+		lua_pushvalue( ls, ++fidx);
+		lua_setfield( ls, nargs+1, fi->name);
+	}
+	if (rc) lua_error( ls);				// ... error object on top of the stack
 	return 0;
 }
 
-- 
2.43.0


From ac1009a9cb41a1360057be2b996a38e395405e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 21/50] fix: base name of a file in a directory without
 extension followed by garbage

---
 src/fileio.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fileio.cpp b/src/fileio.cpp
index 9288202..e91a32b 100644
--- a/src/fileio.cpp
+++ b/src/fileio.cpp
@@ -108,6 +108,7 @@ std::string mewa::fileBaseName( const std::string_view& fnam)
 	buf[ nn] = 0;
 	char* bn = ::basename( buf);
 	std::size_t ee = std::strchr( bn, '\0')-bn;
+	nn = ee;
 	for (; ee > 0 && bn[ ee] != '.'; --ee){}
 	if (ee != 0) nn = ee;
 	return std::string( bn, nn);
-- 
2.43.0


From f71d1b416ea14ad83ff0e3adf8e5f25273e90c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 22/50] fix: failures of writing output reported as success

Errors on flushing a file on close and all errors of writing to standard output
were ignored, and the stream state was used as error code after the file was
closed, what could lead to an exit code 0. The error condition in the redirected
debug function was inverted. Output to stdout or stderr was truncated at a null
character.
---
 src/fileio.cpp           | 21 ++++++++++++++++++---
 src/fileio.hpp           |  2 ++
 src/lua_run_compiler.cpp |  7 ++++---
 src/lualib_mewa.cpp      | 15 ++++++++-------
 src/mewa.cpp             | 11 ++++++++---
 5 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/fileio.cpp b/src/fileio.cpp
index e91a32b..28b9184 100644
--- a/src/fileio.cpp
+++ b/src/fileio.cpp
@@ -14,6 +14,7 @@
 #include "error.hpp"
 #include <cstdio>
 #include <cstring>
+#include <cerrno>
 #include <string>
 #include <libgen.h>
 
@@ -25,10 +26,24 @@ void mewa::writeFile( const char* filename, const std::string& content)
 	if (!ff) throw Error( (Error::Code)errno, filename);
 	if (content.size() != std::fwrite( content.c_str(), 1, content.size(), ff))
 	{
+		int ec = errno;
 		std::fclose( ff);
-		throw Error( (Error::Code)std::ferror( ff), filename);
+		throw Error( (Error::Code)(ec ? ec : EIO), filename);
+	}
+	if (0 != std::fclose( ff)) // ... buffered content written on close
+	{
+		int ec = errno;
+		throw Error( (Error::Code)(ec ? ec : EIO), filename);
+	}
+}
+
+void mewa::writeStream( FILE* stream, const char* name, const std::string& content)
+{
+	if (content.size() != std::fwrite( content.c_str(), 1, content.size(), stream) || 0 != std::fflush( stream))
+	{
+		int ec = errno;
+		throw Error( (Error::Code)(ec ? ec : EIO), name);
 	}
-	std::fclose( ff);
 }
 
 void mewa::writeFile( const std::string& filename, const std::string& content)
@@ -51,7 +66,7 @@ std::string mewa::readFile( const char* filename)
 	}
 	rt.append( rbuf, nn);
 
-	int eno = std::ferror( ff);
+	int eno = std::ferror( ff) ? (errno ? errno : EIO) : 0;
 	bool eof = std::feof( ff);
 	std::fclose( ff);
 
diff --git a/src/fileio.hpp b/src/fileio.hpp
index 93be679..38ab319 100644
--- a/src/fileio.hpp
+++ b/src/fileio.hpp
@@ -12,6 +12,7 @@
 #ifndef _MEWA_FILEIO_HPP_INCLUDED
 #define _MEWA_FILEIO_HPP_INCLUDED
 #if __cplusplus >= 201703L
+#include <cstdio>
 #include <vector>
 #include <string>
 #include <string_view>
@@ -20,6 +21,7 @@ namespace mewa {
 
 void writeFile( const std::string& filename, const std::string& content);
 void writeFile( const char* filename, const std::string& content);
+void writeStream( std::FILE* stream, const char* name, const std::string& content);
 std::string readFile( const std::string& filename);
 std::string readFile( const char* filename);
 std::vector<std::string> readFileLines( const std::string& filename);
diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index ab91c3c..4fb0073 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -18,6 +18,7 @@
 #include "memory_resource.hpp"
 #include <cstdlib>
 #include <cstring>
+#include <cerrno>
 #include <cstdio>
 #include <string>
 #include <vector>
@@ -191,11 +192,11 @@ static void printDebug( FILE* dbgout, const char* fmt, ...)
 	std::string content = mewa::string_format_va( fmt, ap);
 	va_end( ap);
 
-	if (!std::fwrite( content.data(), content.size(), 1, dbgout))
+	if (!std::fwrite( content.data(), content.size(), 1, dbgout) || 0 != std::fflush( dbgout))
 	{
-		throw mewa::Error( (mewa::Error::Code) std::ferror( dbgout), "debug output");
+		int ec = errno;
+		throw mewa::Error( (mewa::Error::Code)(ec ? ec : EIO), "debug output");
 	}
-	std::fflush( dbgout);
 }
 
 static void luaReduceStruct( 
diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 759aaa9..d644f23 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -26,6 +26,7 @@
 #include <memory>
 #include <cstdlib>
 #include <cstring>
+#include <cerrno>
 #include <cstdio>
 #include <cmath>
 #include <string>
@@ -152,21 +153,20 @@ static int lua_print_redirected_impl( lua_State* ls, FILE* fh)
 			}
 			catch (...) {lippincottFunction( ls);}
 		}
-		if (len < std::fwrite( str, 1, len, fh))
+		if (len > std::fwrite( str, 1, len, fh))
 		{
-			int ec = std::ferror( fh);
+			int ec = errno;
 			mewa::Error err( (mewa::Error::Code)ec, functionName);
 			luaL_error( ls, "%s", err.what());
 		}
 	}
 	// Print eoln:
-	if (1 > std::fwrite( "\n", 1, 1, fh))
+	if (1 > std::fwrite( "\n", 1, 1, fh) || 0 != std::fflush( fh))
 	{
-		int ec = std::ferror( fh);
+		int ec = errno;
 		mewa::Error err( (mewa::Error::Code)ec, functionName);
 		luaL_error( ls, "%s", err.what());
 	}
-	std::fflush( fh);
 	return 0;
 }
 
@@ -474,11 +474,12 @@ static int mewa_compiler_run_protected( lua_State* ls)
 			std::string output = mewa::template_format( targetptr, '{', '}', cp->outputSectionMap);
 			if (outputfn == "stderr")
 			{
-				std::fputs( output.c_str(), ::stderr);
+				mewa::writeStream( ::stderr, "stderr", output);
 			}
 			else if (outputfn == "stdout")
 			{
-				std::puts( output.c_str());
+				output.push_back( '\n');
+				mewa::writeStream( ::stdout, "stdout", output);
 			}
 			else
 			{
diff --git a/src/mewa.cpp b/src/mewa.cpp
index 687aa01..c55665b 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -140,11 +140,16 @@ static std::string mapTemplate( const std::string& templat, const Automaton& aut
 	return rt;
 }
 
+static void printOutput( const std::string& content)
+{
+	writeStream( stdout, "stdout", content + "\n");
+}
+
 static void printAutomaton( const std::string& filename, const std::string& templat, const Automaton& automaton, const std::string& luabin)
 {
 	if (filename.empty())
 	{
-		std::cout << mapTemplate( templat, automaton, luabin) << std::endl;
+		printOutput( mapTemplate( templat, automaton, luabin));
 	}
 	else
 	{
@@ -439,7 +444,7 @@ int main( int argc, const char* argv[] )
 			case GenerateTypesystemTemplateForLua:
 				if (outputFilename.empty())
 				{
-					std::cout << output << std::endl;
+					printOutput( output);
 				}
 				else
 				{
@@ -449,7 +454,7 @@ int main( int argc, const char* argv[] )
 			case GenerateLanguageDescriptionForLua:
 				if (outputFilename.empty())
 				{
-					std::cout << output << std::endl;
+					printOutput( output);
 				}
 				else
 				{
-- 
2.43.0


From ef2a6dc47a9f4852452748e16cf05ad57eea15ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 23/50] fix: template file passed attached to the option -t
 used as template itself

Also avoid reading behind the end of program arguments shorter than an option.
---
 src/mewa.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mewa.cpp b/src/mewa.cpp
index c55665b..a07917d 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -224,7 +224,7 @@ int main( int argc, const char* argv[] )
 				}
 				cmd = GenerateLanguageDescriptionForLua;
 			}
-			else if (0==std::memcmp( argv[argi], "-b", 2) || 0==std::memcmp( argv[argi], "--luabin=", 9))
+			else if (0==std::strncmp( argv[argi], "-b", 2) || 0==std::strncmp( argv[argi], "--luabin=", 9))
 			{
 				if (cmd == GenerateTypesystemTemplateForLua)
 				{
@@ -249,7 +249,7 @@ int main( int argc, const char* argv[] )
 					luabin = argv[argi];
 				}
 			}
-			else if (0==std::memcmp( argv[argi], "-o", 2) || 0==std::memcmp( argv[argi], "--output=", 9))
+			else if (0==std::strncmp( argv[argi], "-o", 2) || 0==std::strncmp( argv[argi], "--output=", 9))
 			{
 				int optofs = (argv[argi][1] == '-') ? 9:2;
 				if (argv[argi][ optofs])
@@ -268,7 +268,7 @@ int main( int argc, const char* argv[] )
 					outputFilename = argv[argi];
 				}
 			}
-			else if (0==std::memcmp( argv[argi], "-d", 2) || 0==std::memcmp( argv[argi], "--dbgout=", 9))
+			else if (0==std::strncmp( argv[argi], "-d", 2) || 0==std::strncmp( argv[argi], "--dbgout=", 9))
 			{
 				if (cmd == GenerateTypesystemTemplateForLua)
 				{
@@ -295,7 +295,7 @@ int main( int argc, const char* argv[] )
 					verbose = true;
 				}
 			}
-			else if (0==std::memcmp( argv[argi], "-t", 2) || 0==std::memcmp( argv[argi], "--template=", 11))
+			else if (0==std::strncmp( argv[argi], "-t", 2) || 0==std::strncmp( argv[argi], "--template=", 11))
 			{
 				if (cmd == GenerateTypesystemTemplateForLua)
 				{
@@ -306,7 +306,7 @@ int main( int argc, const char* argv[] )
 				int optofs = (argv[argi][1] == '-') ? 11:2;
 				if (argv[argi][ optofs])
 				{
-					templat = argv[argi]+optofs;
+					templat = readFile( argv[argi]+optofs);
 				}
 				else
 				{
-- 
2.43.0


From 4cfa31ee73cd30e627696fb1b0476ef51590ea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 24/50] fix: message of an error in a callback lost if empty or
 longer than 511 bytes

An error object that is not a string or empty was reported as error without any
message. Longer error messages got truncated.
---
 src/lua_run_compiler.cpp | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index 4fb0073..f75ad15 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -287,15 +287,12 @@ static mewa::Error::Code luaErrorCode2ErrorCode( int rc)
 
 static int lua_pcall_errorhandler( lua_State* ls)
 {
-	int line = 0;
-	char msgbuf[ 512];
 	int ridx = 1;
 	lua_Debug ar;
 
 	int nn = lua_gettop( ls);
 	char const* msgstr = (nn >= 1) ? lua_tostring( ls, 1) : "";
 	if (!msgstr) msgstr = "";
-	std::size_t msglen;
 	if (0!=std::strstr( msgstr, ".lua:"))
 	{
 		lua_pushstring( ls, msgstr);
@@ -306,22 +303,9 @@ static int lua_pcall_errorhandler( lua_State* ls)
 		lua_getinfo( ls, "S", &ar);
 		if (0 == std::strcmp( ar.short_src, "[C]")) break;
 
-		if (line == 0 && ar.linedefined >= 1)
+		if (ar.linedefined >= 1)
 		{
-			line = ar.linedefined;
-			if (line)
-			{
-				msglen = std::snprintf( msgbuf, sizeof(msgbuf), "%s:%d: %s", ar.short_src, line, msgstr);
-			}
-			else
-			{
-				msglen = std::snprintf( msgbuf, sizeof(msgbuf), "%s: %s", ar.short_src, msgstr);
-			}
-			if (msglen > sizeof(msgbuf))
-			{
-				msgbuf[ msglen = sizeof(msgbuf)-1] = 0;
-			}
-			lua_pushlstring( ls, msgbuf, msglen);
+			lua_pushfstring( ls, "%s:%d: %s", ar.short_src, (int)ar.linedefined, msgstr);
 			return 1;
 		}
 		++ridx;
@@ -392,10 +376,11 @@ static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbg
 		if (rc)
 		{
 			const char* msg = lua_tostring( ls, -1);
+			if (!msg || !*msg) throw mewa::Error( luaErrorCode2ErrorCode( rc)); //... error without message
 			mewa::Error err = mewa::Error::parseError( msg);
 			if (err.code() == mewa::Error::RuntimeException)
 			{
-				throw mewa::Error( luaErrorCode2ErrorCode( rc), msg ? msg : "");
+				throw mewa::Error( luaErrorCode2ErrorCode( rc), msg);
 			}
 			else
 			{
-- 
2.43.0


From 1599dcea29a6bcafed6655d954980eb7551a9ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 25/50] fix: Lua stack overflow when compiling more than some
 dozen nodes on the same level

The compiler pushes every node on the Lua stack, and left 3 values on the stack
for every top level node called, without ensuring that there is space. This lead
to memory corruption.
---
 src/lua_run_compiler.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index f75ad15..ed40995 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -147,6 +147,13 @@ static int getLuaStackReductionSize( const std::pmr::vector<State>& stateStack,
 	return end-start;
 }
 
+/// \brief Ensure that there is space for pushing a node and for the temporary values needed for building or calling it
+static void luaCheckStack( lua_State* ls)
+{
+	enum {MaxNofTemporaryValues=20};
+	if (!lua_checkstack( ls, MaxNofTemporaryValues)) throw mewa::Error( mewa::Error::CompiledSourceTooComplex);
+}
+
 static void luaPushLexem( lua_State* ls, const mewa::Lexem& lexem)
 {
 	lua_createtable( ls, 0/*size array*/, 3+1/*size struct + one reserved for free use*/);	// STK [TABLE]
@@ -317,6 +324,7 @@ static int lua_pcall_errorhandler( lua_State* ls)
 static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbgout, int options_index)
 {
 	if (!lua_istable( ls, li)) throw mewa::Error( mewa::Error::BadElementOnCompilerStack, mewa::string_format( "%s line %d", __FILE__, (int)__LINE__));
+	luaCheckStack( ls);
 	lua_pushcfunction( ls, &lua_pcall_errorhandler);		// STK: [EHND] 
 	lua_pushvalue( ls, li);						// STK: [EHND] [NODE]
 	lua_pushliteral( ls, "call");					// STK: [EHND] [NODE] "call"
@@ -393,7 +401,7 @@ static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbg
 			std::string resstr( mewa::luaToString( ls, -1, true/*formatted*/, 0/*no maximum depth*/));
 			printDebug( dbgout, "%s\n", resstr.c_str());
 		}
-		lua_pop( ls, 1);					// STK: 
+		lua_pop( ls, 4);					// STK: 
 	}
 }
 
@@ -402,6 +410,7 @@ static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbg
 /// \return true, if the lexem has been consumed, false if we have to feed the same lexem again
 static bool feedLexem( lua_State* ls, CompilerContext& ctx, const mewa::Automaton& automaton, const mewa::Lexem& lexem)
 {
+	luaCheckStack( ls);
 	auto nexti = automaton.actions().find( {ctx.stateStack.back().index, lexem.id()/*terminal*/});
 	if (nexti == automaton.actions().end())
 	{
-- 
2.43.0


From 21c20a02a197dca0c59303c98a0983ee07881765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 26/50] fix: Lua stack overflow when serializing deeply nested
 or self referencing tables

---
 src/lua_serialize.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index bf9e705..498cb5c 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -10,6 +10,7 @@
 /// \brief Serialization of lua data structures
 /// \file "lua_serialize.hpp"
 #include "lua_serialize.hpp"
+#include "error.hpp"
 #include <vector>
 #include <iostream>
 #include <sstream>
@@ -29,7 +30,7 @@ extern "C" {
 
 using namespace mewa;
 
-static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth);
+static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth, int level);
 
 static void serializeLuaNumber( std::ostream& out, lua_State* ls, int li)
 {
@@ -123,10 +124,12 @@ struct LuaTableKey
 	}
 };
 
-static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth)
+static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth, int level)
 {
+	enum {MaxNestingLevel=5000}; //... limit for self referencing tables, if printed without maximum depth
+	if (level > MaxNestingLevel || !lua_checkstack( ls, 5)) throw Error( Error::LuaStackOutOfMemory, "serialization");
+
 	std::vector<LuaTableKey> keyvec;
-	keyvec.reserve( 1024);
 	bool hasNameKeys = false;
 	int rowcnt = 0;
 
@@ -180,7 +183,7 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 			out << indent;
 			key.serialize( out);
 			out << " = ";
-			serializeLuaValue( out, ls, -1, indent, depth);
+			serializeLuaValue( out, ls, -1, indent, depth, level);
 			lua_pop( ls, 1);					// STK: [TABLE] 
 		}
 	}
@@ -194,7 +197,7 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 
 			if (kidx++) out << ",";
 			out << indent;
-			serializeLuaValue( out, ls, -1, indent, depth);
+			serializeLuaValue( out, ls, -1, indent, depth, level);
 			lua_pop( ls, 1);					// STK: [TABLE] 
 		}
 	}
@@ -248,7 +251,7 @@ static std::string encodeCString( const char* str)
 	return rt;
 }
 
-static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth)
+static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth, int level)
 {
 	int tp = lua_type( ls, li);
 	switch (tp)
@@ -274,12 +277,12 @@ static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const s
 				}
 				else
 				{
-					serializeLuaTable( out, ls, li, indent.empty() ? std::string() : (indent + "  "), depth-1);
+					serializeLuaTable( out, ls, li, indent.empty() ? std::string() : (indent + "  "), depth-1, level+1);
 				}
 			}
 			else
 			{
-				serializeLuaTable( out, ls, li, indent.empty() ? std::string() : (indent + "  "), depth);
+				serializeLuaTable( out, ls, li, indent.empty() ? std::string() : (indent + "  "), depth, level+1);
 			}
 			break;
 		case LUA_TFUNCTION:
@@ -295,7 +298,7 @@ std::string mewa::luaToString( lua_State* ls, int li, bool use_indent, int depth
 {
 	std::string rt;
 	std::ostringstream out;
-	serializeLuaValue( out, ls, li, use_indent ? "\n" : "", depth);
+	serializeLuaValue( out, ls, li, use_indent ? "\n" : "", depth, 0/*level*/);
 	rt.append( out.str());
 	return rt;
 }
-- 
2.43.0


From 3f84546ed72959642fd80d1f2f969898eb57b113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:42 +0000
Subject: [PATCH 27/50] fix: scope-step not incremented by a production with
 '(>>)' without function

---
 src/lua_run_compiler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index ed40995..acd3ef0 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -452,6 +452,7 @@ static bool feedLexem( lua_State* ls, CompilerContext& ctx, const mewa::Automato
 			}
 			else
 			{
+				if (nexti->second.scopeflag() == mewa::Automaton::Action::Step) ctx.scopestep += 1;
 				luaStackNofElements = getLuaStackReductionSize( ctx.stateStack, reductionSize);
 			}
 			ctx.stateStack.resize( ctx.stateStack.size() - reductionSize);
-- 
2.43.0


From 9e5901fb0c7d1c60faa2dff406da0f86f272171d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:07 +0000
Subject: [PATCH 28/50] fix: target template truncated at a null character

---
 src/strings.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/strings.cpp b/src/strings.cpp
index 5351b97..6088124 100644
--- a/src/strings.cpp
+++ b/src/strings.cpp
@@ -82,11 +82,16 @@ std::string mewa::template_format( const std::string_view& templatstr, char sb,
 {
 	std::string rt;
 	char const* ti = templatstr.data();
-	char const* ts = std::strchr( ti, sb);
+	char const* const end = ti + templatstr.size();
+	auto find = [end]( char const* si, char ch) -> char const*
+	{
+		return si == end ? nullptr : (char const*)std::memchr( si, ch, end-si);
+	};
+	char const* ts = find( ti, sb);
 	while (ts)
 	{
 		char const* keystart = ts+1;
-		char const* te = std::strchr( keystart, eb);
+		char const* te = find( keystart, eb);
 		if (te)
 		{
 			auto si = substmap.find( std::string( keystart, te-keystart));
@@ -95,7 +100,7 @@ std::string mewa::template_format( const std::string_view& templatstr, char sb,
 				rt.append( ti, ts-ti);
 				rt.append( si->second);
 				ti = te + 1;
-				if (!(ts = std::strchr( ti, sb))) break;
+				if (!(ts = find( ti, sb))) break;
 			}
 			else
 			{
@@ -109,18 +114,18 @@ std::string mewa::template_format( const std::string_view& templatstr, char sb,
 				{
 					rt.append( ti, ts-ti);
 					ti = te + 1;
-					if (!(ts = std::strchr( ti, sb))) break;
+					if (!(ts = find( ti, sb))) break;
 					// ... an identifier is mapped to an empty string if not found
 				}
 				else
 				{
-					if (!(ts = std::strchr( keystart, sb))) break;
+					if (!(ts = find( keystart, sb))) break;
 				}
 			}
 		}
 		else break;
 	}
-	rt.append( ti);
+	rt.append( ti, end-ti);
 	return rt;
 }
 
-- 
2.43.0


From 5d1a83c646efaf6f56d3e913f1c460162cf3edad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 29/50] fix: precedence of tokens to ignore dependent on the
 random order of a Lua table

---
 src/lua_load_automaton.cpp | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/lua_load_automaton.cpp b/src/lua_load_automaton.cpp
index ac1dc57..e9b04d3 100644
--- a/src/lua_load_automaton.cpp
+++ b/src/lua_load_automaton.cpp
@@ -137,7 +137,9 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 {
 	mewa::Lexer rt;
 	std::vector<std::string> keywords;
-	// ... because keywords need to be loaded after the named token lexems, we need to store them first
+	std::vector<std::string> ignores;
+	std::vector<std::vector<std::string> > tokens;
+	// ... because the tokens to ignore have to be defined first and keywords need to be loaded after the named token lexems, we need to store them first
 	//     and apply the definitions at the end of parsing, because in a lua map they can appear in any order.
 	int rowcnt = 0;
 
@@ -225,14 +227,7 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 					throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable,
 								mewa::string_format( "table '%s/%s', row %d", tableName, keystr, rowcnt));
 				}
-				else if (arg.size() > 2)
-				{
-					rt.defineLexem( 0/*no line*/, arg[0], arg[1], string2int( arg[2]));
-				}
-				else
-				{
-					rt.defineLexem( 0/*no line*/, arg[0], arg[1]);
-				}
+				tokens.push_back( arg);
 				lua_pop( ls, 1);
 			}
 			lua_pop( ls, 1);
@@ -247,11 +242,7 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 		}
 		else if (0==std::strcmp( keystr, "ignore"))
 		{
-			auto ignores = parseStringArray( ls, -1, mewa::string_format( "%s/%s", tableName, keystr));
-			for (auto ignore : ignores)
-			{
-				rt.defineIgnore( 0/*no line*/, ignore);
-			}
+			ignores = parseStringArray( ls, -1, mewa::string_format( "%s/%s", tableName, keystr));
 		}
 		else if (0==std::strcmp( keystr, "indentl"))
 		{
@@ -266,6 +257,21 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 		lua_pop( ls, 1);
 	}
 	lua_pop( ls, 1);
+	for (auto ignore : ignores)
+	{
+		rt.defineIgnore( 0/*no line*/, ignore);
+	}
+	for (auto token : tokens)
+	{
+		if (token.size() > 2)
+		{
+			rt.defineLexem( 0/*no line*/, token[0], token[1], string2int( token[2]));
+		}
+		else
+		{
+			rt.defineLexem( 0/*no line*/, token[0], token.size() > 1 ? token[1] : std::string());
+		}
+	}
 	for (auto keyword : keywords)
 	{
 		rt.defineLexem( keyword);
-- 
2.43.0


From 99c0e3a380912b437c46a989eb5e3ff6fa7c741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:01 +0000
Subject: [PATCH 30/50] fix: stack overflow matching a long lexem

---
 src/lexer.cpp | 16 ++++++++++++++++
 src/lexer.hpp |  3 ++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 0a95d19..3a129ee 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -250,6 +250,22 @@ static bool parseActivationAlternatives( std::string& res, char const*& si, bool
 	return rt;
 }
 
+std::regex LexemDef::compilePattern( const std::string& source_)
+{
+#ifdef __GLIBCXX__
+	// The default matcher of libstdc++ recurses for every character matched, a long lexem makes it exceed the stack
+	try
+	{
+		return std::regex( source_, std::regex_constants::ECMAScript | std::regex_constants::__polynomial);
+	}
+	catch (const std::regex_error&)
+	{
+		// ... invalid or with back-references, not supported by the matcher without recursion
+	}
+#endif
+	return std::regex( source_);
+}
+
 std::string LexemDef::activation( const std::string& source_)
 {
 	std::string rt;
diff --git a/src/lexer.hpp b/src/lexer.hpp
index 3c226b5..6c907cc 100644
--- a/src/lexer.hpp
+++ b/src/lexer.hpp
@@ -26,7 +26,7 @@ class LexemDef
 {
 public:
 	LexemDef( int line_, const std::string& name_, const std::string& source_, int id_, bool keyword_, std::size_t select_)
-		:m_line(line_),m_name(name_),m_source(source_),m_pattern(source_),m_activate(),m_select(select_),m_id(id_),m_keyword(keyword_)
+		:m_line(line_),m_name(name_),m_source(source_),m_pattern(compilePattern(source_)),m_activate(),m_select(select_),m_id(id_),m_keyword(keyword_)
 	{
 		std::string achrs( activation( source_));
 		for (char ch : achrs) {m_activate.set( (unsigned char)ch);}
@@ -52,6 +52,7 @@ public:
 
 private:
 	static std::string activation( const std::string& source_);
+	static std::regex compilePattern( const std::string& source_);
 
 private:
 	int m_line;
-- 
2.43.0


From 26a206feece7e5f1dca9dd660cf65642857d2ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 31/50] fix: keywords with a dollar character never matched

A dollar character in a keyword was not escaped in the regular expression built for the keyword and so taken as anchor for the end.
---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 3a129ee..6e05441 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -16,7 +16,7 @@
 
 using namespace mewa;
 
-#define REGEX_ESCAPE_CHARS "#{}[]()*+?.-\\|&^"
+#define REGEX_ESCAPE_CHARS "#{}[]()*+?.-\\|&^$"
 
 static std::string_view parseChar( char const*& si)
 {
-- 
2.43.0


From bd409ba0372be7fd64812ed97b755698c74eb99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 32/50] fix: empty braces removed from target template

The text {} in a template is no reference to a section, as only identifiers not defined as section are mapped to an empty string.
---
 src/strings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strings.cpp b/src/strings.cpp
index 6088124..d993ea9 100644
--- a/src/strings.cpp
+++ b/src/strings.cpp
@@ -110,7 +110,7 @@ std::string mewa::template_format( const std::string_view& templatstr, char sb,
 				{
 					for (++ki; ki != ke && isAlphaNum(*ki); ++ki){}
 				}
-				if (ki == ke)
+				if (ki == ke && ki != keystart)
 				{
 					rt.append( ti, ts-ti);
 					ti = te + 1;
-- 
2.43.0


From 8445cf5d4a19acae5538296a488d225e18253383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 33/50] fix: text of errors lost or read out of bounds when
 parsed

Error::parseError dropped the text following the message or the location if not separated by a colon (e.g. Error at line 12 something, or errors located at line -1 in a nested run), compared with the error text beyond its end, accepted prefixes of the error text and called terminate on an allocation failure, because it was declared as noexcept.
---
 src/error.cpp | 8 +++++---
 src/error.hpp | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/error.cpp b/src/error.cpp
index 96ff7de..f370294 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -24,7 +24,7 @@
 
 using namespace mewa;
 
-Error Error::parseError( const char* errstr) noexcept
+Error Error::parseError( const char* errstr)
 {
 	Code code_ = Ok;
 	int line_ = 0;
@@ -93,7 +93,7 @@ Error Error::parseError( const char* errstr) noexcept
 				param_ = errstr;
 				state = StateEnd;
 			}
-			else if (0==std::memcmp( msgstart, code2String( code_), ei-msgstart))
+			else if (std::string_view( msgstart, ei-msgstart) == code2String( code_))
 			{
 				++ei;
 				skipSpaces( ei);
@@ -148,6 +148,8 @@ Error Error::parseError( const char* errstr) noexcept
 			}
 			else
 			{
+				code_ = RuntimeException; //... not the format of an error message, keep the complete text
+				param_ = errstr;
 				state = StateEnd;
 			}
 			break;
@@ -170,7 +172,7 @@ int Error::parseInteger( char const*& si) noexcept
 	int rt = 0;
 	for (; *si >= '0' && *si <= '9'; ++si)
 	{
-		rt = (rt * 10) + (*si - '0');
+		if (rt < std::numeric_limits<int>::max() / 10) rt = (rt * 10) + (*si - '0');
 	}
 	return rt;
 }
diff --git a/src/error.hpp b/src/error.hpp
index f15bd0e..70a4614 100644
--- a/src/error.hpp
+++ b/src/error.hpp
@@ -184,7 +184,7 @@ public:
 		return std::runtime_error::what();
 	}
 
-	static Error parseError( const char* errstr) noexcept;
+	static Error parseError( const char* errstr);
 
 public:
 	static int parseInteger( char const*& si) noexcept;
-- 
2.43.0


From ecdcf3f9e225508d9457363d43532119b642b8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 34/50] fix: file left open when reading it fails because of
 lack of memory

---
 src/fileio.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fileio.cpp b/src/fileio.cpp
index 28b9184..2607a86 100644
--- a/src/fileio.cpp
+++ b/src/fileio.cpp
@@ -16,6 +16,7 @@
 #include <cstring>
 #include <cerrno>
 #include <string>
+#include <memory>
 #include <libgen.h>
 
 using namespace mewa;
@@ -57,6 +58,8 @@ std::string mewa::readFile( const char* filename)
 	FILE* ff = std::fopen( filename, "r");
 	if (!ff) throw Error( (Error::Code)errno, filename);
 
+	std::unique_ptr<FILE,int(*)(FILE*)> ffref( ff, &std::fclose); //... closed also on an allocation failure
+
 	enum {RBufsize = 1<<12};
 	char rbuf[ RBufsize];
 	std::size_t nn = std::fread( rbuf, 1, RBufsize, ff);
@@ -68,7 +71,7 @@ std::string mewa::readFile( const char* filename)
 
 	int eno = std::ferror( ff) ? (errno ? errno : EIO) : 0;
 	bool eof = std::feof( ff);
-	std::fclose( ff);
+	ffref.reset();
 
 	if (eno)
 	{
-- 
2.43.0


From 56960754b3ed47effe18d238879d2da20e826e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:54 +0000
Subject: [PATCH 35/50] fix: string with both kinds of quotes printed out of
 bounds

---
 src/languagedef_tostring.cpp | 55 +++++++++---------------------------
 1 file changed, 14 insertions(+), 41 deletions(-)

diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index 50904dc..ae32935 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -14,19 +14,20 @@
 
 using namespace mewa;
 
-static std::string escapeString( const std::string& str)
+static std::string escapeString( const std::string& str, char quote)
 {
 	std::string rt;
-	char const* si = str.c_str();
-	for (; *si; ++si)
+	for (char ch : str)
 	{
-		if (*si == '\\')
+		switch (ch)
 		{
-			rt.append( "\\\\");
-		}
-		else
-		{
-			rt.push_back( *si);
+			case '\n': rt.append( "\\n"); break;
+			case '\r': rt.append( "\\r"); break;
+			case '\0': rt.append( "\\000"); break;
+			case '\\': rt.append( "\\\\"); break;
+			default:
+				if (ch == quote) rt.push_back( '\\');
+				rt.push_back( ch);
 		}
 	}
 	return rt;
@@ -34,38 +35,10 @@ static std::string escapeString( const std::string& str)
 
 void mewa::printString( std::ostream& outstream, const std::string& str)
 {
-	char const* sqpos = std::strchr( str.c_str(), '\'');
-	char const* dqpos = std::strchr( str.c_str(), '\"');
-	if (sqpos && dqpos)
-	{
-		sqpos = 0;
-		dqpos = 0;
-		char const* si = str.c_str();
-		for (; si; ++si)
-		{
-			if (*si == '\\')
-			{
-				++si;
-			}
-			else if (*si == '\'')
-			{
-				sqpos = si;
-			}
-			else if (*si == '\"')
-			{
-				dqpos = si;
-			}
-		}
-	}
-	if (dqpos)
-	{
-		if (sqpos) throw Error( Error::EscapeQuoteErrorInString, str);
-		outstream << "\'" << escapeString( str) << "\'";
-	}
-	else
-	{
-		outstream << "\"" << escapeString( str) << "\"";
-	}
+	// Use single quotes for a string with double quotes only, otherwise double quotes:
+	bool useSingleQuote = str.find( '\"') != std::string::npos && str.find( '\'') == std::string::npos;
+	char quote = useSingleQuote ? '\'' : '\"';
+	outstream << quote << escapeString( str, quote) << quote;
 }
 
 static void printArgument( std::ostream& outstream, const char* type, const std::vector<std::string>& args)
-- 
2.43.0


From d029dd1ee7203067d1947ff70ffd5998be7b875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:54 +0000
Subject: [PATCH 36/50] fix: endless loop and wrong text extracting attributes
 from comments

---
 src/automaton_parser.cpp | 56 ++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index 90700b0..b94f752 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -741,32 +741,34 @@ std::string mewa::printLuaTypeSystemStub( const LanguageDef& langdef)
 	return rt;
 }
 
-static char const* skipSpaces( char const* str, const char* end=nullptr)
+static char const* skipSpaces( char const* str, const char* end)
 {
-	for (; (unsigned char)*str <= 32 && *str != '\n' && str != end; ++str){}
+	for (; str != end && (unsigned char)*str <= 32 && *str != '\n'; ++str){}
 	return str;
 }
 
-static char const* skipEoln( char const* str, const char* end=nullptr)
+static char const* skipEoln( char const* str, const char* end)
 {
-	for (; *str != '\n' && str != end; ++str){}
+	for (; str != end && *str != '\n'; ++str){}
 	return str;
 }
 
+static std::string trimLine( char const* str, const char* end)
+{
+	str = skipSpaces( str, end);
+	for (; str != end && (unsigned char)*(end-1) <= 32; --end){}
+	return std::string( str, end - str);
+}
+
 static std::vector<std::string> splitLines( char const* str, std::size_t sz)
 {
 	std::vector<std::string> rt;
 	const char* end = str + sz;
 	while (str < end)
 	{
-		const char* start = skipSpaces( str, end); //skip leading spaces
-		str = skipEoln( start, end);
-		std::size_t nn = str-start;
-		while (nn > 0 && (unsigned char)start[ nn-1] <= 32)
-		{
-			--nn;
-		}
-		rt.emplace_back( start, nn);
+		const char* eoln = skipEoln( str, end);
+		rt.push_back( trimLine( str, eoln));
+		str = eoln == end ? end : eoln+1;
 	}
 	while (!rt.empty() && rt.back().empty())
 	{
@@ -826,42 +828,34 @@ LanguageDecoratorMap mewa::parseLanguageDecoratorMap( const std::string& source)
 	std::vector<std::string> comment;
 	std::vector<LanguageDecorator> decorators;
 	std::size_t symlen = 0;
-	int line = 0;
 	char const* start = scanner.next();
+	char const* end = start + scanner.restsize();
 	for (; *start; start = scanner.next( symlen))
 	{
 		comment.clear();
+		symlen = 0;
 		if (start[0] == '#' || (start[0] == '/' && start[1] == '/'))
 		{
-			line = scanner.line();
 			start += start[0] == '#' ? 1:2;
-			if (scanner.scan( "\n"))
-			{
-				comment.emplace_back( start, scanner.current() - start - 1);
-			}
-			else
-			{
-				comment.emplace_back( start);
-			}
-			symlen = 0;
+			char const* eoln = skipEoln( start, end);
+			comment.push_back( trimLine( start, eoln));
+			symlen = eoln - scanner.current();
 		}
 		else if (start[0] == '/' && start[1] == '*')
 		{
-			line = scanner.line();
+			static const char endmarker[] = "*/";
 			start += 2;
-			if (scanner.scan( "*/"))
-			{
-				comment = splitLines( start, scanner.current() - start);
-			}
-			else
+			char const* endcomment = std::search( start, end, endmarker, endmarker + 2);
+			if (endcomment == end)
 			{
 				throw Error( Error::UnexpectedEofInGrammarDef);
 			}
-			symlen = 1;
+			comment = splitLines( start, endcomment - start);
+			symlen = endcomment + 2 - scanner.current();
 		}
 		else
 		{
-			line = scanner.line();
+			int line = scanner.line();
 			grammarLexer.next( scanner);
 			for (auto const& dc : decorators)
 			{
-- 
2.43.0


From 6025a13743e3724ff9557af98c819ad1c0523bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 37/50] fix: attribute names in comments that are not Lua
 identifiers lead to invalid Lua

---
 src/languagedef_tostring.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index ae32935..3ac1684 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -65,12 +65,21 @@ static void printArgument( std::ostream& outstream, const char* type, int arg)
 	outstream << arg;
 }
 
+static bool isLuaName( const std::string& name)
+{
+	static const std::set<std::string> keywords = {
+		"and","break","do","else","elseif","end","false","for","function","goto","if","in",
+		"local","nil","not","or","repeat","return","then","true","until","while"};
+	return !name.empty() && !(name[0] >= '0' && name[0] <= '9') && keywords.find( name) == keywords.end();
+}
+
 static void printDecorators( std::ostream& outstream, const std::vector<LanguageDecorator>& decorators)
 {
 	for (auto const& dc : decorators)
 	{
 		outstream << ",";
-		printArgument( outstream, dc.name.c_str(), dc.content);
+		std::string key = isLuaName( dc.name) ? dc.name : "[\"" + dc.name + "\"]";
+		printArgument( outstream, key.c_str(), dc.content);
 	}
 }
 
-- 
2.43.0


From a42128ea2cbe8041368b551c5e61518a48589f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 38/50] fix: output truncated for lack of memory reported as
 success

---
 src/automaton_tostring.cpp   | 1 +
 src/languagedef_tostring.cpp | 1 +
 src/mewa.cpp                 | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/automaton_tostring.cpp b/src/automaton_tostring.cpp
index 9ee3cc7..a790903 100644
--- a/src/automaton_tostring.cpp
+++ b/src/automaton_tostring.cpp
@@ -178,6 +178,7 @@ static void printCallTable( std::ostream& outstream, const char* tablename, cons
 std::string Automaton::tostring() const
 {
 	std::ostringstream outstream;
+	outstream.exceptions( std::ios::badbit);	//... an allocation failing must not lead to truncated output
 	outstream << "{\n";
 	outstream << "\tmewa = \"" << MEWA_VERSION_STRING << "\",\n";
 	if (!language().empty())
diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index 3ac1684..0626031 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -239,6 +239,7 @@ std::string mewa::printLuaLanguageDefinition( const LanguageDef& langdef, const
 	const char* indentstr1 = ",\n\t";
 	const char* indentstr2 = ",\n\t\t";
 	std::ostringstream out;
+	out.exceptions( std::ios::badbit);	//... an allocation failing must not lead to truncated output
 	out << "local languagedef = {\n";
 	out << "\tVERSION = \"" << MEWA_VERSION_STRING << "\"";
 	out << indentstr1;
diff --git a/src/mewa.cpp b/src/mewa.cpp
index a07917d..7591931 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -410,6 +410,7 @@ int main( int argc, const char* argv[] )
 			else
 			{
 				std::stringstream dbgoutstream;
+				dbgoutstream.exceptions( std::ios::badbit);	//... an allocation failing must not lead to truncated output
 				automaton.build( source, warnings, Automaton::DebugOutput( dbgoutstream).enable( Automaton::DebugOutput::All));
 				std::string dbgoutput = dbgoutstream.str();
 				writeFile( debugFilename, dbgoutput);
-- 
2.43.0


From 9cd7ade9c83939981a45c0a41e110e0256f8c313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 39/50] fix: invalid Lua generated for strings with double
 quotes in the grammar

---
 src/automaton_tostring.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/automaton_tostring.cpp b/src/automaton_tostring.cpp
index a790903..1e8fc6f 100644
--- a/src/automaton_tostring.cpp
+++ b/src/automaton_tostring.cpp
@@ -134,6 +134,13 @@ static void printLexer( std::ostream& outstream, const char* tablename, const Le
 	}
 }
 
+/// \brief Print a string of the grammar, where escape sequences are left to Lua. A string with double quotes was written in single quotes.
+static void printGrammarString( std::ostream& outstream, const std::string& str)
+{
+	const char* quote = str.find( '\"') == std::string::npos ? "\"" : "\'";
+	outstream << quote << str << quote;
+}
+
 static void printCallTable( std::ostream& outstream, const char* tablename, const std::vector<Automaton::Call>& table, bool sep)
 {
 	outstream << "\t" << tablename << " = {";
@@ -153,7 +160,8 @@ static void printCallTable( std::ostream& outstream, const char* tablename, cons
 				outstream << "name=";
 				printString( outstream, call.function() + " " + call.arg());
 				outstream << ", proc=" << g_typeSystemModulePrefix << call.function();
-				outstream << ", obj=\"" << call.arg() << "\"";
+				outstream << ", obj=";
+				printGrammarString( outstream, call.arg());
 				break;
 			case Automaton::Call::ReferenceArg:
 				outstream << "name=";
@@ -183,15 +191,21 @@ std::string Automaton::tostring() const
 	outstream << "\tmewa = \"" << MEWA_VERSION_STRING << "\",\n";
 	if (!language().empty())
 	{
-		outstream << "\tlanguage = \"" << language() << "\",\n";
+		outstream << "\tlanguage = ";
+		printGrammarString( outstream, language());
+		outstream << ",\n";
 	}
 	if (!typesystem().empty())
 	{
-		outstream << "\ttypesystem = \"" << typesystem() << "\",\n";
+		outstream << "\ttypesystem = ";
+		printGrammarString( outstream, typesystem());
+		outstream << ",\n";
 	}
 	if (!cmdline().empty())
 	{
-		outstream << "\tcmdline = \"" << cmdline() << "\",\n";
+		outstream << "\tcmdline = ";
+		printGrammarString( outstream, cmdline());
+		outstream << ",\n";
 	}
 	printLexer( outstream, "lexer", lexer(), true/*sep*/);
 	printStringArray( outstream, "nonterminal", m_nonterminals, true/*sep*/);
-- 
2.43.0


From 9bf60cdab52828bf755199412f3dc7decd88963b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 40/50] fix: template of the compiler truncated at a null
 character

---
 src/mewa.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mewa.cpp b/src/mewa.cpp
index 7591931..d8bf808 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -115,12 +115,12 @@ static std::string mapTemplateKey( const std::string& content, const char* key,
 {
 	std::string rt;
 	std::string pattern = std::string("%") + key + "%";
-	char const* pp = std::strstr( content.c_str(), pattern.c_str());
-	if (pp)
+	std::size_t pos = content.find( pattern);
+	if (pos != std::string::npos)
 	{
-		rt.append( content.c_str(), pp-content.c_str());
+		rt.append( content, 0, pos);
 		rt.append( value);
-		rt.append( pp + pattern.size());
+		rt.append( content, pos + pattern.size(), std::string::npos);
 	}
 	else
 	{
-- 
2.43.0


From 3e965cee6b86575cd395bfdcc9de65041130509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 41/50] fix: malformed function name in the grammar accepted

---
 src/automaton_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index b94f752..b7c515b 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -274,6 +274,10 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 				case GrammarLexer::CALL:
 					if (state == ParseCallName)
 					{
+						if (lexem.value()[0] == '-' || lexem.value().back() == '.' || lexem.value().find( "..") != std::string_view::npos)
+						{
+							throw Error( Error::UnexpectedTokenInGrammarDef, lexem.value());
+						}
 						call_function = std::string( lexem.value());
 						state = ParseCallArg;
 					}
-- 
2.43.0


From f5e57672c5ba1340d8b8827575ff1fef344b82cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 42/50] fix: integer overflow not detected in the grammar

---
 src/automaton_parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index b7c515b..7059ca5 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -17,6 +17,7 @@
 #include <map>
 #include <algorithm>
 #include <type_traits>
+#include <limits>
 
 using namespace mewa;
 
@@ -93,8 +94,8 @@ static int convertStringToInt( const std::string_view& str)
 		char ch = str[ si];
 		if (ch >= '0' && ch <= '9')
 		{
+			if (rt > (std::numeric_limits<int>::max() - (ch - '0')) / 10) throw Error( Error::ValueOutOfRangeInGrammarDef, str);
 			rt = rt * 10 + (ch - '0');
-			if (rt < 0) throw Error( Error::ValueOutOfRangeInGrammarDef, str);
 		}
 		else
 		{
-- 
2.43.0


From 8b61fb1a03c6820392ca53dd64e2971155261e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:42 +0000
Subject: [PATCH 43/50] fix: tokens of INDENTL listed with quoted names and as
 declared tokens by -l

---
 src/languagedef_tostring.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index 0626031..e6721b1 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -11,6 +11,9 @@
 /// \brief Function to print Lexem definitions as Lua table
 /// \file "languagedef_tostring.cpp"
 #include "languagedef_tostring.hpp"
+#include "strings.hpp"
+#include <set>
+#include <string>
 
 using namespace mewa;
 
@@ -83,7 +86,16 @@ static void printDecorators( std::ostream& outstream, const std::vector<Language
 	}
 }
 
-static void printLexerDefinitions( std::ostream& outstream, const char* indentstr, const Lexer& lexer, const std::vector<Lexer::Definition>& defs, const LanguageDecoratorMap& decorators, int& cnt)
+static std::string indentLexemName( const std::vector<Lexer::Definition>& defs, int id)
+{
+	for (auto const& def : defs)
+	{
+		if (def.type() == Lexer::Definition::NamedPatternLexem && def.id() == id) return def.name();
+	}
+	throw Error( Error::LogicError, string_format( "%s line %d", __FILE__, (int)__LINE__));
+}
+
+static void printLexerDefinitions( std::ostream& outstream, const char* indentstr, const std::vector<Lexer::Definition>& defs, const LanguageDecoratorMap& decorators, int& cnt)
 {
 	for (auto const& def : defs)
 	{
@@ -102,6 +114,7 @@ static void printLexerDefinitions( std::ostream& outstream, const char* indentst
 				break;
 
 			case Lexer::Definition::NamedPatternLexem:
+				if (!def.line()) break; //... implicitly defined by an INDENTL command
 				outstream << (cnt++ ? indentstr : (indentstr+1));
 				outstream << "{";
 				printArgument( outstream, "op", "TOKEN");
@@ -166,11 +179,11 @@ static void printLexerDefinitions( std::ostream& outstream, const char* indentst
 				outstream << "{";
 				printArgument( outstream, "op", "INDENTL");
 				outstream << ",";
-				printArgument( outstream, "open", lexer.lexemName( def.openind()));
+				printArgument( outstream, "open", indentLexemName( defs, def.openind()));
 				outstream << ",";
-				printArgument( outstream, "close", lexer.lexemName( def.closeind()));
+				printArgument( outstream, "close", indentLexemName( defs, def.closeind()));
 				outstream << ",";
-				printArgument( outstream, "nl", lexer.lexemName( def.newline()));
+				printArgument( outstream, "nl", indentLexemName( defs, def.newline()));
 				outstream << ",";
 				printArgument( outstream, "tabsize", def.tabsize());
 				printDecorators( outstream, decorators.get( def.line()));
@@ -251,7 +264,7 @@ std::string mewa::printLuaLanguageDefinition( const LanguageDef& langdef, const
 	out << indentstr1 << "RULES = {";
 	auto const& defs = langdef.lexer.getDefinitions();
 	int cnt = 0;
-	printLexerDefinitions( out, indentstr2, langdef.lexer, defs, decoratormap, cnt);
+	printLexerDefinitions( out, indentstr2, defs, decoratormap, cnt);
 	printProductions( out, indentstr2, langdef, decoratormap, cnt);
 	out << "\n\t}\n}\nreturn languagedef\n\n";
 	std::string rt = out.str();
-- 
2.43.0


From fdb5c046c0f3bd08be8f3e1e5b0f686d5614ef1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:46 +0000
Subject: [PATCH 44/50] fix: memory allocated beyond the initial block of a
 memory resource never released

---
 src/memory_resource.hpp | 42 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/memory_resource.hpp b/src/memory_resource.hpp
index a5afc6b..7ad515c 100644
--- a/src/memory_resource.hpp
+++ b/src/memory_resource.hpp
@@ -65,13 +65,13 @@ class monotonic_buffer_resource : public std::pmr::memory_resource
 {
 public:
 	monotonic_buffer_resource( std::size_t initsize, std::pmr::memory_resource* upstream_)
-		:m_baseptr(nullptr),m_index(0),m_size(initsize),m_upstream(upstream_),m_ownership_upstream(false),m_ownership_baseptr(true)
+		:m_baseptr(nullptr),m_index(0),m_size(initsize),m_upstream(upstream_),m_upstreamBlocks(nullptr),m_ownership_upstream(false),m_ownership_baseptr(true)
 	{
 		m_baseptr = (char*)std::malloc( m_size);
 		m_ownership_baseptr = m_baseptr != nullptr;
 	}
 	explicit monotonic_buffer_resource( std::size_t initsize)
-		:m_baseptr(nullptr),m_index(0),m_size(initsize),m_upstream(nullptr),m_ownership_upstream(false),m_ownership_baseptr(true)
+		:m_baseptr(nullptr),m_index(0),m_size(initsize),m_upstream(nullptr),m_upstreamBlocks(nullptr),m_ownership_upstream(false),m_ownership_baseptr(true)
 	{
 		init_new_upstream();
 		m_baseptr = (char*)std::malloc( m_size);
@@ -79,18 +79,19 @@ public:
 	}
 	~monotonic_buffer_resource()
 	{
+		releaseUpstreamBlocks();
 		if (m_ownership_baseptr) std::free( m_baseptr);
 		if (m_ownership_upstream) delete m_upstream;
 	}
 
 	monotonic_buffer_resource( void* buffer, std::size_t buffersize)
-		:m_baseptr((char*)buffer),m_index(0),m_size(buffersize),m_upstream(nullptr),m_ownership_upstream(false),m_ownership_baseptr(false)
+		:m_baseptr((char*)buffer),m_index(0),m_size(buffersize),m_upstream(nullptr),m_upstreamBlocks(nullptr),m_ownership_upstream(false),m_ownership_baseptr(false)
 	{
 		init_new_upstream();
 	}
 
 	monotonic_buffer_resource( void* buffer, std::size_t buffersize, std::pmr::memory_resource* upstream_)
-		:m_baseptr((char*)buffer),m_index(0),m_size(buffersize),m_upstream(upstream_),m_ownership_upstream(false),m_ownership_baseptr(false)
+		:m_baseptr((char*)buffer),m_index(0),m_size(buffersize),m_upstream(upstream_),m_upstreamBlocks(nullptr),m_ownership_upstream(false),m_ownership_baseptr(false)
 	{}
 
 	monotonic_buffer_resource(const monotonic_buffer_resource&) = delete;
@@ -146,18 +147,49 @@ private:
 		skip_align( __alignment);
 		if (m_index + __bytes > m_size)
 		{
-			return m_upstream->allocate( __bytes, __alignment);
+			return allocateUpstreamBlock( __bytes, __alignment);
 		}
 		void* rt = m_baseptr + m_index;
 		m_index += __bytes;
 		return rt;
 	}
 
+	/// \brief Header of a block allocated from upstream
+	struct UpstreamBlock
+	{
+		UpstreamBlock* next;
+		std::size_t size;
+		std::size_t alignment;
+	};
+
+	void* allocateUpstreamBlock( std::size_t bytes, std::size_t alignment)
+	{
+		if (alignment < alignof(UpstreamBlock)) alignment = alignof(UpstreamBlock);
+		std::size_t offset = (sizeof(UpstreamBlock) + alignment - 1) & ~(alignment - 1);
+		UpstreamBlock* block = (UpstreamBlock*)m_upstream->allocate( offset + bytes, alignment);
+		block->next = m_upstreamBlocks;
+		block->size = offset + bytes;
+		block->alignment = alignment;
+		m_upstreamBlocks = block;
+		return (char*)block + offset;
+	}
+
+	void releaseUpstreamBlocks() noexcept
+	{
+		while (m_upstreamBlocks)
+		{
+			UpstreamBlock* block = m_upstreamBlocks;
+			m_upstreamBlocks = block->next;
+			m_upstream->deallocate( block, block->size, block->alignment);
+		}
+	}
+
 private:
 	char* m_baseptr;
 	std::size_t m_index;
 	std::size_t m_size;
 	std::pmr::memory_resource* m_upstream;
+	UpstreamBlock* m_upstreamBlocks;	//> list of blocks allocated from upstream
 	bool m_ownership_upstream;
 	bool m_ownership_baseptr;
 };
-- 
2.43.0


From cdcc9f3d3071734d50647df1dd7a080c38ff6006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:33 +0000
Subject: [PATCH 45/50] fix: memory leaked when an error is raised in debug
 output

---
 src/lualib_mewa.cpp | 71 ++++++++++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 33 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index d644f23..588394a 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -75,6 +75,15 @@ static void pushErrorMessage( lua_State* ls, ARGS&&... args)
 	lua_pushliteral( ls, "memory allocation error");
 }
 
+/// \brief Raise an error outside of a handler, without leaving an object to destroy behind when jumping
+static int raiseError( lua_State* ls, mewa::Error::Code code, const char* functionName)
+{
+	luaL_where( ls, 1);
+	pushErrorMessage( ls, code, functionName);
+	lua_concat( ls, 2);
+	return lua_error( ls);
+}
+
 /// \note Got this idea from Jason Turner C++ Weekly Ep. 91 "Using Lippincott Functions"
 ///		See also The C++ Standard Library2ndEd. by Nicolai M. Josuttis page 50
 /// \param[in] level level of the calling Lua function in the call stack, 1 for the caller of the current function
@@ -131,41 +140,40 @@ static int lua_print_redirected_impl( lua_State* ls, FILE* fh)
 	int nargs = lua_gettop( ls);
 	for (int li=1; li <= nargs; ++li)
 	{
-		std::string content;
-		std::size_t len = 0;
-		const char* str = "";
-		if (lua_isnil( ls, li))
-		{
-			str = "<nil>";
-			len = 5;
-		}
-		else if (lua_isstring( ls, li))
+		bool success = true;
+		int ec = 0;
 		{
-			str = lua_tolstring( ls, li, &len);
-		}
-		else
-		{
-			try
+			std::string content;
+			std::size_t len = 0;
+			const char* str = "";
+			if (lua_isnil( ls, li))
 			{
-				content = mewa::luaToString( ls, li, false/*formatted*/, 0/*no maximum depth*/);
-				len = content.size();
-				str = content.c_str();
+				str = "<nil>";
+				len = 5;
 			}
-			catch (...) {lippincottFunction( ls);}
-		}
-		if (len > std::fwrite( str, 1, len, fh))
-		{
-			int ec = errno;
-			mewa::Error err( (mewa::Error::Code)ec, functionName);
-			luaL_error( ls, "%s", err.what());
+			else if (lua_isstring( ls, li))
+			{
+				str = lua_tolstring( ls, li, &len);
+			}
+			else
+			{
+				try
+				{
+					content = mewa::luaToString( ls, li, false/*formatted*/, 0/*no maximum depth*/);
+					len = content.size();
+					str = content.c_str();
+				}
+				catch (...) {lippincottFunction( ls);}
+			}
+			success = len == std::fwrite( str, 1, len, fh);
+			if (!success) ec = errno;
 		}
+		if (!success) raiseError( ls, (mewa::Error::Code)ec, functionName);
 	}
 	// Print eoln:
 	if (1 > std::fwrite( "\n", 1, 1, fh) || 0 != std::fflush( fh))
 	{
-		int ec = errno;
-		mewa::Error err( (mewa::Error::Code)ec, functionName);
-		luaL_error( ls, "%s", err.what());
+		raiseError( ls, (mewa::Error::Code)errno, functionName);
 	}
 	return 0;
 }
@@ -202,8 +210,7 @@ static int lua_print_section_redirected( lua_State* ls)
 	[[maybe_unused]] static const char* functionName = "mewa print section redirected";
 	if (!cp)
 	{
-		mewa::Error err( mewa::Error::LuaInvalidUserData, functionName);
-		luaL_error( ls, "%s", err.what());
+		raiseError( ls, mewa::Error::LuaInvalidUserData, functionName);
 	}
 	try
 	{
@@ -220,8 +227,7 @@ static int lua_print_redirected( lua_State* ls) {
 	[[maybe_unused]] static const char* functionName = "mewa print redirected";
 	if (!cp)
 	{
-		mewa::Error err( mewa::Error::LuaInvalidUserData, functionName);
-		luaL_error( ls, "%s", err.what());
+		raiseError( ls, mewa::Error::LuaInvalidUserData, functionName);
 	}
 	try
 	{
@@ -237,8 +243,7 @@ static int lua_debug_redirected( lua_State* ls) {
 	[[maybe_unused]] static const char* functionName = "mewa print redirected";
 	if (!cp)
 	{
-		mewa::Error err( mewa::Error::LuaInvalidUserData, functionName);
-		luaL_error( ls, "%s", err.what());
+		raiseError( ls, mewa::Error::LuaInvalidUserData, functionName);
 	}
 	return lua_print_redirected_impl( ls, cp->debugFileHandle ? cp->debugFileHandle : ::stderr);
 }
-- 
2.43.0


From 6c8186350dc97d5b158717a113be9531c55b8905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:44 +0000
Subject: [PATCH 46/50] fix: invalid type handle accepted as parameter type of
 a type definition

---
 src/typedb.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index 7e27c7b..f2c369a 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -225,6 +225,10 @@ int TypeDatabase::defineType( const Scope& scope, int contextType, const std::st
 	if ((int)(m_parameterMap.size() + parameter.size()) >= std::numeric_limits<int>::max()) throw Error( Error::CompiledSourceTooComplex);
 	if (constructor < 0) throw Error( Error::InvalidHandle, string_format( "%d", constructor));
 	if (contextType < 0 || contextType > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", contextType));
+	for (auto const& param : parameter)
+	{
+		if (param.type < 0 || param.type > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", param.type));
+	}
 
 	TypeDef typeDef( contextType, m_identMap->get( name));
 
-- 
2.43.0


From c5d50f2cee7e693f6058189bc91e0f4e6a43dccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:44 +0000
Subject: [PATCH 47/50] fix: invalid context handle accepted by resolve_type if
 the name is unknown

---
 src/typedb.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index f2c369a..0d082a5 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -639,6 +639,14 @@ TypeDatabase::ResolveResult TypeDatabase::resolveType_(
 	ResolveResult rt( resbuf);
 	bool alt_searchstate = false;
 
+	std::size_t ci = 0;
+	for (; ci < contextTypeSize; ++ci)
+	{
+		if (contextTypeAr[ci] < 0 || contextTypeAr[ci] > (int)m_typerecMap.size())
+		{
+			throw Error( Error::InvalidHandle, string_format( "%d", contextTypeAr[ci]));
+		}
+	}
 	int nameid = m_identMap->lookup( name);
 	if (!nameid) return rt;
 
@@ -648,13 +656,8 @@ TypeDatabase::ResolveResult TypeDatabase::resolveType_(
 	ReduStack stack( &stack_memrsc, sizeof buffer);
 	std::priority_queue<ReduQueueElem,LocalMemVector<ReduQueueElem>,std::greater<ReduQueueElem> > priorityQueue;
 
-	std::size_t ci = 0;
-	for (; ci < contextTypeSize; ++ci)
+	for (ci = 0; ci < contextTypeSize; ++ci)
 	{
-		if (contextTypeAr[ci] < 0 || contextTypeAr[ci] > (int)m_typerecMap.size())
-		{
-			throw Error( Error::InvalidHandle, string_format( "%d", contextTypeAr[ci]));
-		}
 		int index = stack.pushNonDuplicateStart( contextTypeAr[ci], (int)ci+1/*root index stored as constructor*/);
 		if (index >= 0) priorityQueue.push( ReduQueueElem( 0.0/*weight*/, index));
 	}
-- 
2.43.0


From 6e88fd9a0a5c447a887650f5ff604c98b6f70b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:27 +0000
Subject: [PATCH 48/50] fix: integer arguments outside of the range of int
 silently truncated to other values

---
 src/lua_parameter.cpp | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 925ef58..6ff4ccc 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -101,21 +101,27 @@ const char* mewa::lua::getArgumentAsCString( const char* functionName, lua_State
 	return lua_tostring( ls, li);
 }
 
-long mewa::lua::getArgumentAsInteger( const char* functionName, lua_State* ls, int li, mewa::Error::Code ec)
+/// \brief Get an element of the argument at index li as integer, rejecting values that cannot be represented by an int
+static int getIntegerValue( const char* functionName, lua_State* ls, int valueIndex, int li, mewa::Error::Code ec)
 {
-	if (!mewa::lua::isArgumentType( functionName, ls, li, (1 << LUA_TNUMBER)))
+	if (!lua_isnumber( ls, valueIndex)) mewa::lua::throwArgumentError( functionName, li, ec);
+	double val = lua_tonumber( ls, valueIndex);
+	double rt = std::floor( val + std::numeric_limits<double>::epsilon()*4);
+	if (!(val - std::floor( val) < std::numeric_limits<double>::epsilon()*4)
+		|| rt < (double)std::numeric_limits<int>::min() || rt > (double)std::numeric_limits<int>::max())
 	{
 		mewa::lua::throwArgumentError( functionName, li, ec);
 	}
-	double val = lua_tonumber( ls, li);
-	if (val - std::floor( val) < std::numeric_limits<double>::epsilon()*4)
-	{
-		return (long)std::floor( val + std::numeric_limits<double>::epsilon()*4);
-	}
-	else
+	return (int)rt;
+}
+
+long mewa::lua::getArgumentAsInteger( const char* functionName, lua_State* ls, int li, mewa::Error::Code ec)
+{
+	if (!mewa::lua::isArgumentType( functionName, ls, li, (1 << LUA_TNUMBER)))
 	{
 		mewa::lua::throwArgumentError( functionName, li, ec);
 	}
+	return getIntegerValue( functionName, ls, li, li, ec);
 }
 
 long mewa::lua::getArgumentAsUnsignedInteger( const char* functionName, lua_State* ls, int li)
@@ -186,11 +192,11 @@ mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State*
 			int kidx = getTableIndex( ls, -2);
 			if (kidx == 1)
 			{
-				start = lua_tointeger( ls, -1);
+				start = getIntegerValue( functionName, ls, -1, li, mewa::Error::ExpectedArgumentScopeStructure);
 			}
 			else if (kidx == 2)
 			{
-				end = lua_tointeger( ls, -1);
+				end = getIntegerValue( functionName, ls, -1, li, mewa::Error::ExpectedArgumentScopeStructure);
 				if (end < 0)
 				{
 					end = std::numeric_limits<Scope::Step>::max() + end + 1;
@@ -217,8 +223,12 @@ mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State*
 
 mewa::TagMask mewa::lua::getArgumentAsTagMask( const char* functionName, lua_State* ls, int li)
 {
-	mewa::TagMask::BitSet bs = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, li);
-	return mewa::TagMask( bs);
+	double val = mewa::lua::getArgumentAsFloatingPoint( functionName, ls, li);
+	if (!(val >= 0.0 && val <= (double)std::numeric_limits<mewa::TagMask::BitSet>::max()) || val != std::floor( val))
+	{
+		mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedNonNegativeIntegerArgument);
+	}
+	return mewa::TagMask( (mewa::TagMask::BitSet)val);
 }
 
 int mewa::lua::getArgumentAsConstructor( const char* functionName, lua_State* ls, int li)
@@ -249,7 +259,7 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 				int kidx = getTableIndex( ls, -2);
 				if (kidx == 1)
 				{
-					type = lua_tointeger( ls, -1);
+					type = getIntegerValue( functionName, ls, -1, -1, mewa::Error::ExpectedArgumentTypeConstructorPairList);
 				}
 				else if (kidx == 2)
 				{
@@ -267,7 +277,7 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 				char const* str = lua_tolstring( ls, -2, &len);
 				if (len == 4 && 0==std::memcmp( str, "type", len))
 				{
-					type = lua_tointeger( ls, -1);
+					type = getIntegerValue( functionName, ls, -1, -1, mewa::Error::ExpectedArgumentTypeConstructorPairList);
 				}
 				else if (len == 11 && 0==std::memcmp( str, "constructor", len))
 				{
@@ -369,7 +379,7 @@ int mewa::lua::getArgumentAsType( const char* functionName, lua_State* ls, int l
 		lua_rawget( ls, li > 0 ? li : (li-1));		// STK: [ARG] [TYPE]
 		if (lua_isnumber( ls, -1))
 		{
-			rt = lua_tointeger( ls, -1);
+			rt = getIntegerValue( functionName, ls, -1, li, mewa::Error::ExpectedArgumentType);
 			if (rt < 0) mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentType);
 			lua_pop( ls, 1);
 		}
@@ -413,7 +423,7 @@ std::pmr::vector<int> mewa::lua::getArgumentAsTypeList(
 					lua_rawget( ls, -2);						// STK: [KEY] [VAL] [TYPE]
 					if (lua_isnumber( ls, -1))
 					{
-						type = lua_tointeger( ls, -1);
+						type = getIntegerValue( functionName, ls, -1, li, mewa::Error::ExpectedArgumentTypeList);
 					}
 					else
 					{
-- 
2.43.0


From d5234bf61c391494885f943be307a37130d28b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:10 +0000
Subject: [PATCH 49/50] fix: redirected print functions kept by a callback
 wrote into the memory of a compiler already collected

---
 src/lualib_mewa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 588394a..bab74b4 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -464,7 +464,7 @@ static int mewa_compiler_run_protected( lua_State* ls)
 			}
 		}
 		lua_getglobal( ls, "_G");
-		lua_pushlightuserdata( ls, cp);
+		lua_pushvalue( ls, 1);			// ... the closures keep the compiler alive
 		luaL_setfuncs( ls, g_printlib, 1/*number of closure elements*/);
 		lua_pop( ls, 1);
 
-- 
2.43.0


From 01f2d87c5f26db6abd24022a3b978bda88f3eb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:55 +0000
Subject: [PATCH 50/50] fix: objects already finalized were accepted as
 arguments and accessed released memory

---
 src/lualib_mewa.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index bab74b4..dd961c4 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -206,7 +206,7 @@ static void append_printbuffer( lua_State* ls, int ai, int ae, std::string& buff
 
 static int lua_print_section_redirected( lua_State* ls)
 {
-	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)lua_touserdata(ls, lua_upvalueindex(1));
+	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)luaL_checkudata( ls, lua_upvalueindex(1), mewa_compiler_userdata_t::metatableName());
 	[[maybe_unused]] static const char* functionName = "mewa print section redirected";
 	if (!cp)
 	{
@@ -223,7 +223,7 @@ static int lua_print_section_redirected( lua_State* ls)
 }
 
 static int lua_print_redirected( lua_State* ls) {
-	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)lua_touserdata(ls, lua_upvalueindex(1));
+	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)luaL_checkudata( ls, lua_upvalueindex(1), mewa_compiler_userdata_t::metatableName());
 	[[maybe_unused]] static const char* functionName = "mewa print redirected";
 	if (!cp)
 	{
@@ -239,7 +239,7 @@ static int lua_print_redirected( lua_State* ls) {
 }
 
 static int lua_debug_redirected( lua_State* ls) {
-	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)lua_touserdata(ls, lua_upvalueindex(1));
+	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)luaL_checkudata( ls, lua_upvalueindex(1), mewa_compiler_userdata_t::metatableName());
 	[[maybe_unused]] static const char* functionName = "mewa print redirected";
 	if (!cp)
 	{
@@ -375,6 +375,14 @@ static int mewa_new_compiler( lua_State* ls)
 	return 1;
 }
 
+/// \brief Remove the metatable of the finalized object passed as first argument, so that no function of the library accepts it anymore
+/// \note An object that has been finalized can still be referenced, by a finalizer called later when closing the Lua state or after an explicit call of __gc
+static void disableFinalizedObject( lua_State* ls)
+{
+	lua_pushnil( ls);
+	lua_setmetatable( ls, 1);
+}
+
 static int mewa_destroy_compiler( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "compiler:__gc";
@@ -387,6 +395,7 @@ static int mewa_destroy_compiler( lua_State* ls)
 	catch (...) { lippincottFunction( ls); }
 
 	cp->destroy( ls);
+	disableFinalizedObject( ls);
 	return 0;
 }
 
@@ -571,6 +580,7 @@ static int mewa_destroy_typedb( lua_State* ls)
 	catch (...) { lippincottFunction( ls); }
 
 	td->destroy( ls);
+	disableFinalizedObject( ls);
 	return 0;
 }
 
@@ -1182,6 +1192,7 @@ struct LuaTreeMetaMethods
 		catch (...) { lippincottFunction( ls); }
 
 		ud->destroy( ls);
+		disableFinalizedObject( ls);
 		return 0;
 	}
 
-- 
2.43.0

