#include "rt.hpp"
#include "shm.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <new>
#include <sstream>
#include <pthread.h>
#include <execinfo.h>
#include <exception>
#include <cxxabi.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a,b)
#define ASAN_UNPOISON_MEMORY_REGION(a,b)
#endif
#define NOASAN __attribute__((no_sanitize("address")))

extern "C" {
void* __real_malloc( size_t n);
void* __real_calloc( size_t n, size_t m);
void* __real_realloc( void* p, size_t n);
void  __real_free( void* p);
void* __real_aligned_alloc( size_t a, size_t n);
FILE* __real_fopen( const char* path, const char* mode);
time_t __real_time( time_t* t);
char* __real_getenv( const char* name);
int __real_clock_gettime( clockid_t c, struct timespec* t);
int __real_gettimeofday( struct timeval* t, void* z);
clock_t __real_clock( void);
pid_t __real_getpid( void);
int __real_rand( void);
long __real_random( void);
int64_t __real__ZNSt6chrono3_V212system_clock3nowEv( void);
int64_t __real__ZNSt6chrono3_V212steady_clock3nowEv( void);
unsigned __real__ZNSt13random_device9_M_getvalEv( void* o);
int __real___cxa_guard_acquire( uint64_t* g);
void __real___cxa_guard_release( uint64_t* g);
void __real___cxa_guard_abort( uint64_t* g);
}

namespace sim {

Shm* g_shm = nullptr;
long stepBudgetDefault = 4000000;

// ---------------------------------------------------------------- text helpers
Line Line::parse( const std::string& s)
{
	Line rt;
	std::istringstream in( s);
	std::string w;
	while (in >> w)
	{
		size_t eq = w.find('=');
		if (eq != std::string::npos && eq > 0) rt.kv[ w.substr(0,eq)] = w.substr(eq+1);
		else rt.w.push_back( w);
	}
	return rt;
}
const std::string& Line::at( size_t i) const
{
	static const std::string empty;
	return i < w.size() ? w[i] : empty;
}
long Line::num( size_t i) const {return i < w.size() ? atol( w[i].c_str()) : 0;}
std::string Line::get( const char* k, const char* d) const {auto i = kv.find(k); return i == kv.end() ? std::string(d) : i->second;}
long Line::geti( const char* k, long d) const {auto i = kv.find(k); return i == kv.end() ? d : atol( i->second.c_str());}

std::string Plan::text() const
{
	std::string rt = "world " + world + "\nprop " + prop + "\n";
	for (auto& l : lines) rt += l + "\n";
	return rt;
}
Plan Plan::parse( const std::string& text)
{
	Plan rt;
	std::istringstream in( text);
	std::string l;
	while (std::getline( in, l))
	{
		if (l.empty() || l[0] == '#') continue;
		if (l.compare(0,6,"world ")==0) rt.world = l.substr(6);
		else if (l.compare(0,5,"prop ")==0) rt.prop = l.substr(5);
		else rt.lines.push_back( l);
	}
	return rt;
}
static std::string vstrf( const char* fmt, va_list ap)
{
	va_list ap2;
	va_copy( ap2, ap);
	int n = vsnprintf( nullptr, 0, fmt, ap2);
	va_end( ap2);
	std::string rt( n, 0);
	vsnprintf( &rt[0], n+1, fmt, ap);
	return rt;
}
std::string strf( const char* fmt, ...)
{
	va_list ap; va_start( ap, fmt);
	std::string rt = vstrf( fmt, ap);
	va_end( ap);
	return rt;
}
std::string quote( const std::string& s, size_t maxlen)
{
	std::string rt = "\"";
	for (size_t i=0; i<s.size() && i<maxlen; ++i)
	{
		unsigned char c = s[i];
		if (c == '\n') rt += "\\n";
		else if (c == '\t') rt += "\\t";
		else if (c == '"' || c == '\\') {rt += '\\'; rt += c;}
		else if (c < 32 || c >= 127) rt += strf( "\\x%02x", c);
		else rt += c;
	}
	if (s.size() > maxlen) rt += strf( "..(%zu)", s.size());
	return rt + "\"";
}
std::string hex( const std::string& s)
{
	std::string rt = "h";
	for (unsigned char c : s) rt += strf( "%02x", c);
	return rt;
}
std::string unhex( const std::string& s)
{
	std::string rt;
	for (size_t i=1; i+1 < s.size()+0 && i+2 <= s.size(); i+=2) rt += (char)strtol( s.substr(i,2).c_str(), nullptr, 16);
	return rt;
}

// ---------------------------------------------------------------- recording
static uint64_t g_hash = 0xcbf29ce484222325ull;
static bool g_verbose = getenv("SIM_VERBOSE") != nullptr;
static std::map<std::string,long>* g_stats = nullptr;
static std::vector<IoFault>* g_iofaults = nullptr;
static long g_nviol = 0;
static FILE* g_trace = nullptr;

bool verbose() {return g_verbose;}
uint64_t histhash() {return g_hash;}
long nofViolations() {return g_nviol;}

void ev( const char* fmt, ...)
{
	HostScope hs;
	va_list ap; va_start( ap, fmt);
	std::string s = vstrf( fmt, ap);
	va_end( ap);
	int a = currentActor();
	if (a >= 0) s = strf( "[%d] ", a) + s;
	g_hash = fnv( g_hash, s.c_str(), s.size()+1);
	g_shm->nevents++;
	if (g_verbose)
	{
		if (!g_trace) {g_trace = fdopen( 200, "w");}
		if (g_trace) {fprintf( g_trace, "  %s\n", s.c_str()); fflush( g_trace);}
	}
}
void note( const char* key, long n)
{
	HostScope hs;
	(*g_stats)[ key] += n;
}
void maxnote( const char* key, long n)
{
	HostScope hs;
	long& v = (*g_stats)[ key];
	if (n > v) v = n;
}
void probe( const char* key)
{
	HostScope hs;
	(*g_stats)[ std::string("probe:") + key] += 1;
}
void violation( const char* prop, const char* oracle, const char* fmt, ...)
{
	HostScope hs;
	va_list ap; va_start( ap, fmt);
	std::string s = vstrf( fmt, ap);
	va_end( ap);
	if (++g_nviol > 20) return;
	std::string line = strf( "%s\t%s\t%s\n", prop, oracle, quote(s,600).c_str());
	ev( "VIOLATION %s", line.c_str());
	size_t l = strlen( g_shm->viol);
	if (l + line.size() + 1 < sizeof(g_shm->viol)) memcpy( g_shm->viol + l, line.c_str(), line.size()+1);
}
void exportStats()
{
	HostScope hs;
	if (g_iofaults) for (auto& f : *g_iofaults)
		if (f.fired) (*g_stats)[ "fault:io-" + f.op + "-" + f.kind.substr(0,f.kind.find(':'))] += f.fired;
	std::string st;
	(*g_stats)["sim_steps"] += totalSteps();
	for (auto& kv : *g_stats) st += strf( "%s\t%ld\n", kv.first.c_str(), kv.second);
	if (st.size() + 1 < sizeof(g_shm->stats)) memcpy( g_shm->stats, st.c_str(), st.size()+1);
}
void importStats()
{
	HostScope hs;
	const char* s = g_shm->stats;
	while (*s)
	{
		const char* t = strchr( s, '\t'); const char* e = strchr( s, '\n');
		if (!t || !e) break;
		std::string k( s, t-s);
		long v = atol( t+1);
		long& x = (*g_stats)[ k];
		if (k.compare(0,4,"max:") == 0) {if (v > x) x = v;} else x += v;
		s = e+1;
	}
	g_shm->stats[ 0] = 0;
}
void finishRun()
{
	HostScope hs;
	exportStats();
	g_shm->hash = g_hash;
	g_shm->done = 1;
	fflush( stdout);
	_exit( 0);
}

// ---------------------------------------------------------------- arena
struct Tracked {size_t size; std::string op; void* bt[ 12]; int nbt;};
static std::map<void*,Tracked>* g_tracked = nullptr;
static thread_local int t_track = 0;
TrackScope::TrackScope() {++t_track;}
TrackScope::~TrackScope() {--t_track;}
struct Hdr {uint32_t magic; uint32_t align; uint64_t size;};	// 16 bytes in front of each block
static const uint32_t MagicUsed = 0xA110CA7E, MagicFree = 0xF4EEF4EE;
static char* const ArenaBase = (char*)0x300000000000ull;
static const size_t ArenaSize = (size_t)24 << 30;
static char* g_top = nullptr;
static AllocKnobs g_knobs;
static Rng* g_layoutRng = nullptr;
static std::map<size_t,std::vector<char*> >* g_free = nullptr;
static long g_totalSteps = 0;
static long g_live = 0;

static thread_local int t_sut = 0;
static thread_local int t_noyield = 0;
static thread_local int t_actor = -1;
static thread_local long t_steps = 0;
static thread_local long t_budget = 4000000;
static thread_local FaultCtx t_faults;

void enterSut() {++t_sut;}
void leaveSut() {--t_sut;}
bool inSut() {return t_sut > 0;}
HostScope::HostScope() :saved(t_sut) {t_sut = 0;}
HostScope::~HostScope() {t_sut = saved;}
FaultCtx& faults() {return t_faults;}
long sutSteps() {return t_steps;}
long totalSteps() {return g_totalSteps;}
void setStepBudget( long n) {t_steps = 0; t_budget = n;}
int currentActor() {return t_actor;}

static NOASAN void arenaFail( const char* what, void* p)
{
	HostScope hs;
	snprintf( g_shm->crash, sizeof(g_shm->crash), "%s %p", what, p);
	abort();
}

static void step()
{
	++t_steps; ++g_totalSteps;
	if (t_steps > t_budget && t_budget > 0)
	{
		HostScope hs;
		t_budget = 0;
		violation( g_shm->prop, "progress", "operation made more than the permitted number of steps without end: %s", g_shm->op);
		finishRun();
	}
}

NOASAN void allocInit( const AllocKnobs& k)
{
	g_knobs = k;
	g_layoutRng = new Rng( k.layoutSeed);
	g_free = new std::map<size_t,std::vector<char*> >();
	if (!g_top)
	{
		void* p = mmap( ArenaBase, ArenaSize, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
		if (p != ArenaBase) {fprintf( stderr, "cannot map arena: %s\n", strerror(errno)); _exit( 98);}
		g_top = ArenaBase + 4096 + (k.gapMax ? 16*g_layoutRng->below( 64) : 0);
	}
	if (!g_stats) g_stats = new std::map<std::string,long>();
}

void beginProcess( const AllocKnobs& k)
{
	HostScope hs;
	allocInit( k);
	if (k.gapMax) g_top += 16 * (size_t)g_layoutRng->below( 1<<14);
	g_stats->clear();
	g_totalSteps = 0;
	t_faults = FaultCtx();
}

static inline bool inArena( void* p) {return (char*)p >= ArenaBase && (char*)p < ArenaBase + ArenaSize;}

static NOASAN void* arenaAlloc( size_t n, size_t align)
{
	if (n > ((size_t)1<<32)) return nullptr;
	size_t sz = (n + 15) & ~(size_t)15;
	if (sz == 0) sz = 16;
	char* p = nullptr;
	int saved = t_sut; t_sut = 0;
	if (g_knobs.reusePct && align <= 16)
	{
		auto fi = g_free->find( sz);
		if (fi != g_free->end() && !fi->second.empty() && g_layoutRng->chance( g_knobs.reusePct))
		{
			auto& v = fi->second;
			size_t i = g_layoutRng->chance( 70) ? v.size()-1 : g_layoutRng->below( v.size());
			p = v[ i]; v[ i] = v.back(); v.pop_back();
			++g_live;
		}
	}
	if (!p)
	{
		g_top += 16;	// header
		if (g_knobs.gapMax) g_top += 16 * g_layoutRng->below( g_knobs.gapMax);
		while (((size_t)g_top & (align-1)) != 0) g_top += 16;
		p = g_top;
		g_top += sz + 16; // at least 16 bytes red zone behind
		if (g_top > ArenaBase + ArenaSize - 65536) {t_sut = saved; return nullptr;}
		ASAN_POISON_MEMORY_REGION( p + sz, 16);
		++g_live;
	}
	Hdr* h = (Hdr*)(p-16);
	h->magic = MagicUsed; h->align = align; h->size = n;
	ASAN_POISON_MEMORY_REGION( p-16, 16);
	ASAN_UNPOISON_MEMORY_REGION( p, sz);
	if (n & 15) ASAN_POISON_MEMORY_REGION( p + n, sz - n);
	t_sut = saved;
	if (g_knobs.fillByte >= 0 && n <= 65536) for (size_t i=0; i<n; ++i) ((volatile char*)p)[i] = (char)g_knobs.fillByte;
	return p;
}
static NOASAN void arenaFree( void* p_)
{
	char* p = (char*)p_;
	Hdr* h = (Hdr*)(p-16);
	if (g_tracked) {int saved = t_sut; t_sut = 0; g_tracked->erase( p_); t_sut = saved;}
	if (((size_t)p & 15) || h->magic != MagicUsed) arenaFail( h->magic == MagicFree ? "double free" : "invalid free", p);
	h->magic = MagicFree;
	size_t sz = (h->size + 15) & ~(size_t)15;
	if (sz == 0) sz = 16;
	ASAN_POISON_MEMORY_REGION( p, sz);
	--g_live;
	if (g_knobs.reusePct && h->align <= 16)
	{
		int saved = t_sut; t_sut = 0;
		(*g_free)[ sz].push_back( p);
		t_sut = saved;
	}
	else if (sz >= (1<<20)) madvise( (void*)(((size_t)p + 4095) & ~(size_t)4095), (sz - 4096) & ~(size_t)4095, MADV_DONTNEED);
}
static NOASAN size_t arenaSizeOf( void* p) {return ((Hdr*)((char*)p-16))->size;}

// ---------------------------------------------------------------- blocks allocated by the C++ code under test and not released yet

void trackMemory()
{
	HostScope hs;
	if (!g_tracked) g_tracked = new std::map<void*,Tracked>();
}
static void track( void* p, size_t n)
{
	if (!p || !t_track || t_noyield) return;
	HostScope hs;
	Tracked& t = (*g_tracked)[ p];
	t.size = n;
	t.op = g_shm->op;
	t.nbt = g_verbose ? backtrace( t.bt, 12) : 0;
}
static int g_abandoned = 0;
int abandonedExceptions() {return g_abandoned;}
int dropExceptions()
{
	// ... Lua leaves the handler of an exception with a longjmp, the object is never released
	int rt = 0;
	while (g_tracked && std::current_exception()) {++rt; abi::__cxa_end_catch();}
	if (rt) note( "exception objects abandoned", rt);
	g_abandoned += rt;
	return rt;
}
std::string unreleased()
{
	HostScope hs;
	if (!g_tracked || g_tracked->empty()) return std::string();
	size_t sum = 0;
	std::map<std::string,int> ops;
	for (auto& kv : *g_tracked) {sum += kv.second.size; ++ops[ kv.second.op];}
	std::string rt = strf( "%d blocks with %zu bytes in total, allocated in", (int)g_tracked->size(), sum);
	int n = 0;
	for (auto& kv : ops) if (++n <= 3) rt += strf( " '%s' (%d)", kv.first.c_str(), kv.second);
	if (g_verbose)
		for (auto& kv : *g_tracked)
		{
			fprintf( stderr, "not released: %zu bytes, op %s\n", kv.second.size, kv.second.op.c_str());
			backtrace_symbols_fd( kv.second.bt, kv.second.nbt, 2);
		}
	return rt;
}

static void* sutCpp( size_t n, size_t align)
{
	step();
	if (t_actor >= 0 && !t_noyield) yieldPoint( 1);
	long k = ++t_faults.nCpp;
	if (t_faults.failCpp && (k == t_faults.failCpp || (t_faults.persistent && k > t_faults.failCpp)) && !t_noyield)
	{
		++t_faults.firedCpp;
		return nullptr;
	}
	if (t_faults.failBig && (long)n >= t_faults.failBig && !t_noyield)
	{
		++t_faults.firedCpp; ++t_faults.firedBig;
		return nullptr;
	}
	void* rt = arenaAlloc( n, align);
	if (g_tracked) track( rt, n);
	return rt;
}

static void* luaAlloc( void* ud, void* ptr, size_t osize, size_t nsize)
{
	if (nsize == 0) {if (ptr) arenaFree( ptr); return nullptr;}
	if (!ptr || nsize > osize)
	{
		step();
		if (t_actor >= 0 && !t_noyield && t_sut) yieldPoint( 1);
		long k = ++t_faults.nLua;
		// Vectors of Lua (osize == 0 without block) are excluded: a table of Lua 5.2 loses elements if the allocation of its new hash part fails
		bool newVector = !ptr && osize == 0;
		if (t_faults.failLua && !newVector && k >= t_faults.failLua && (t_faults.firedLua < 2 || t_faults.persistent))
		{
			// ... the allocator is called again by Lua after an emergency collection, fail this second call too
			++t_faults.firedLua;
			return nullptr;
		}
		if (t_faults.egc && k == t_faults.egc && *(lua_State**)ud && lua_gc( *(lua_State**)ud, LUA_GCISRUNNING, 0)/*... otherwise Lua gives up without collecting*/)
		{
			++t_faults.firedEgc;
			return nullptr;
		}
	}
	if (!ptr) return arenaAlloc( nsize, 16);
	if (nsize <= osize && ((nsize+15) >> 4) == ((osize+15) >> 4) && !g_knobs.gapMax) {}
	void* np = arenaAlloc( nsize, 16);
	if (!np) return nsize <= osize ? ptr : nullptr;
	memcpy( np, ptr, osize < nsize ? osize : nsize);
	arenaFree( ptr);
	return np;
}

static void countHook( lua_State*, lua_Debug*) {step(); if (t_actor >= 0 && !t_noyield && t_sut) yieldPoint( 0);}

static int panic( lua_State* L)
{
	HostScope hs;
	snprintf( g_shm->crash, sizeof(g_shm->crash), "Lua panic: %s", lua_tostring( L, -1));
	abort();
}

lua_State* newState()
{
	FaultCtx saved = t_faults;
	t_faults = FaultCtx();
	SutScope ss;
	lua_State** slot = new lua_State*( nullptr);
	lua_State* L = lua_newstate( luaAlloc, slot);
	*slot = L;
	lua_atpanic( L, panic);
	lua_sethook( L, countHook, LUA_MASKCOUNT, 1000);
	t_faults = saved;
	return L;
}
void closeState( lua_State* L)
{
	SutScope ss;
	lua_close( L);
}

// ---------------------------------------------------------------- scheduler
struct Actor {pthread_t th; sem_t sem; bool finished; std::function<void()> fn; int idx;};
static std::vector<Actor*>* g_actors = nullptr;
static std::vector<Quantum>* g_sched = nullptr;
static size_t g_schedPos = 0;
static long g_left = 0;
static int g_running = -1;
static sem_t g_mainSem;
static char* const StackBase = (char*)0x320000000000ull;
static const size_t StackSize = (size_t)4 << 20;

static bool g_preempt = false;	// switches at every basic block of the code under test
static int nextActor( int cur)
{
	bool wrapped = false;
again:
	while (g_schedPos < g_sched->size())
	{
		Quantum q = (*g_sched)[ g_schedPos++];
		if (q.actor >= 0 && q.actor < (int)g_actors->size() && !(*g_actors)[ q.actor]->finished && q.n > 0)
		{
			g_left = q.n;
			return q.actor;
		}
	}
	if (g_preempt && !wrapped)
	{
		// the schedule is repeated
		wrapped = true; g_schedPos = 0;
		goto again;
	}
	g_left = -1;	// ... run to completion
	if (cur >= 0 && !(*g_actors)[ cur]->finished) return cur;
	for (auto a : *g_actors) if (!a->finished) return a->idx;
	return -1;
}
static void switchTo( int nx)
{
	HostScope hs;
	note( "context_switches");
	int self = t_actor;
	g_running = nx;
	g_hash = fnv( g_hash, &nx, sizeof(nx));
	sem_post( &(*g_actors)[ nx]->sem);
	while (0 != sem_wait( &(*g_actors)[ self]->sem)) {}
}
void yieldPoint( int)
{
	if (t_actor < 0 || !g_actors || g_running != t_actor) return;
	if (g_left < 0) return;
	if (--g_left > 0) return;
	int nx = nextActor( t_actor);
	if (nx != t_actor) switchTo( nx);
}
void setPreemption( bool on) {g_preempt = on;}

unsigned char* g_cov = nullptr;
unsigned long g_covBase = 0, g_covSize = 0;
extern "C" char __executable_start, etext;
void covInit()
{
	g_covBase = (unsigned long)&__executable_start; g_covSize = (unsigned long)&etext - g_covBase;
	void* m = mmap( nullptr, g_covSize, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	if (m != MAP_FAILED) g_cov = (unsigned char*)m;
}
// called by the instrumentation of the code under test at every basic block
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc()
{
	if (g_cov) {unsigned long i = (unsigned long)__builtin_return_address( 0) - g_covBase; if (i < g_covSize) g_cov[ i] = 1;}
	if (!g_preempt) return;
	if (t_actor < 0 || t_noyield || !t_sut) return;
	if (!g_actors || g_running != t_actor || g_left < 0) return;
	if (g_left > 1) {--g_left; return;}
	++t_noyield;
	int e = errno;
	yieldPoint( 4);
	errno = e;
	--t_noyield;
}
// a lock held by a parked actor: the token is passed on instead of waiting
static bool passToken()
{
	if (t_actor < 0 || !g_actors || g_running != t_actor) return false;
	int n = g_actors->size();
	for (int i=1; i<n; ++i)
	{
		int nx = (t_actor + i) % n;
		if (!(*g_actors)[ nx]->finished) {switchTo( nx); return true;}
	}
	return false;
}
extern "C" {
int __real_pthread_mutex_lock( pthread_mutex_t* m);
int __real_pthread_rwlock_rdlock( pthread_rwlock_t* m);
int __real_pthread_rwlock_wrlock( pthread_rwlock_t* m);
int __wrap_pthread_mutex_lock( pthread_mutex_t* m)
{
	if (t_actor < 0) return __real_pthread_mutex_lock( m);
	for (;;) {int rc = pthread_mutex_trylock( m); if (rc != EBUSY) return rc; if (!passToken()) return __real_pthread_mutex_lock( m);}
}
int __wrap_pthread_rwlock_rdlock( pthread_rwlock_t* m)
{
	if (t_actor < 0) return __real_pthread_rwlock_rdlock( m);
	for (;;) {int rc = pthread_rwlock_tryrdlock( m); if (rc != EBUSY) return rc; if (!passToken()) return __real_pthread_rwlock_rdlock( m);}
}
int __wrap_pthread_rwlock_wrlock( pthread_rwlock_t* m)
{
	if (t_actor < 0) return __real_pthread_rwlock_wrlock( m);
	for (;;) {int rc = pthread_rwlock_trywrlock( m); if (rc != EBUSY) return rc; if (!passToken()) return __real_pthread_rwlock_wrlock( m);}
}
}
static void* actorMain( void* a_)
{
	Actor* a = (Actor*)a_;
	while (0 != sem_wait( &a->sem)) {}
	t_actor = a->idx;
	a->fn();
	a->finished = true;
	t_actor = -1;
	int nx = nextActor( -1);
	g_running = nx;
	if (nx >= 0) sem_post( &(*g_actors)[ nx]->sem);
	else sem_post( &g_mainSem);
	return nullptr;
}
void runActors( const std::vector<std::function<void()> >& fns, const std::vector<Quantum>& schedule)
{
	HostScope hs;
	std::vector<Actor*> actors;
	std::vector<Quantum> sched( schedule);
	g_actors = &actors; g_sched = &sched; g_schedPos = 0;
	sem_init( &g_mainSem, 0, 0);
	char* st = (char*)mmap( StackBase, StackSize * fns.size(), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED, -1, 0);
	for (size_t i=0; i<fns.size(); ++i)
	{
		Actor* a = new Actor();
		a->idx = i; a->finished = false; a->fn = fns[i];
		sem_init( &a->sem, 0, 0);
		actors.push_back( a);
	}
	for (size_t i=0; i<fns.size(); ++i)
	{
		pthread_attr_t at;
		pthread_attr_init( &at);
		pthread_attr_setstack( &at, st + StackSize*i, StackSize);
		if (0 != pthread_create( &actors[i]->th, &at, actorMain, actors[i])) {fprintf( stderr, "pthread_create failed\n"); _exit( 98);}
	}
	int nx = nextActor( -1);
	g_running = nx;
	if (nx >= 0)
	{
		sem_post( &actors[ nx]->sem);
		while (0 != sem_wait( &g_mainSem)) {}
	}
	for (auto a : actors) pthread_join( a->th, nullptr);
	g_actors = nullptr;
}

// ---------------------------------------------------------------- simulated disk
static int g_openFiles = 0;
static long g_ioOps = 0;
static int g_ioChunk = 0;
static std::vector<IoOp>* g_ioLog = nullptr;

void ioFaults( const std::vector<IoFault>& f)
{
	HostScope hs;
	if (!g_iofaults) g_iofaults = new std::vector<IoFault>();
	for (auto& o : *g_iofaults) if (o.fired) note( ("fault:io-" + o.op + "-" + o.kind.substr(0,o.kind.find(':'))).c_str(), o.fired);
	*g_iofaults = f;
}
std::vector<IoFault>& ioFaultList() {if (!g_iofaults) {HostScope hs; g_iofaults = new std::vector<IoFault>();} return *g_iofaults;}
int openFiles() {return g_openFiles;}
long ioOps() {return g_ioOps;}
void ioChunk( int n) {g_ioChunk = n;}
std::vector<IoOp>& ioLog() {if (!g_ioLog) {HostScope hs; g_ioLog = new std::vector<IoOp>();} return *g_ioLog;}

static int errnoOf( const std::string& k)
{
	static const struct {const char* n; int e;} tab[] = {{"EIO",EIO},{"ENOSPC",ENOSPC},{"EACCES",EACCES},{"ENOENT",ENOENT},{"EMFILE",EMFILE},
		{"EDQUOT",EDQUOT},{"EROFS",EROFS},{"ENOMEM",ENOMEM},{"EISDIR",EISDIR},{"EFBIG",EFBIG},{nullptr,0}};
	for (int i=0; tab[i].n; ++i) if (k == tab[i].n) return tab[i].e;
	return EIO;
}
static IoFault* matchFault( const char* op, const std::string& file)
{
	++g_ioOps;
	step();
	if (t_actor >= 0 && !t_noyield) yieldPoint( 2);
	if (!g_iofaults) return nullptr;
	for (auto& f : *g_iofaults)
	{
		if (f.op == op && (f.match == "*" || file.find( f.match) != std::string::npos))
		{
			if (++f.count == f.at) {++f.fired; return &f;}
		}
	}
	return nullptr;
}
static void logIo( const char* op, const std::string& file, long res)
{
	ioLog().push_back( {op, file, res});
	ev( "io %s %s %ld", op, file.c_str(), res);
}
static void crashNow()
{
	fflush( nullptr);
	note( "fault:crash");
	g_shm->crashed = 1;
	finishRun();
}
struct SimFile {int fd; std::string name; bool write;};

static ssize_t ckRead( void* c, char* buf, size_t n)
{
	HostScope hs;
	SimFile* f = (SimFile*)c;
	IoFault* x = matchFault( "read", f->name);
	if (x)
	{
		if (x->kind.compare(0,5,"crash") == 0) crashNow();
		if (x->kind != "short")
		{
			errno = errnoOf( x->kind);
			logIo( "read", f->name, -errno);
			errno = errnoOf( x->kind);
			return -1;
		}
		if (n > 1) n = 1 + (n * 7919 % (n-1));
	}
	if (g_ioChunk && (int)n > g_ioChunk) n = g_ioChunk;
	ssize_t r = read( f->fd, buf, n);
	logIo( "read", f->name, r);
	return r;
}
static ssize_t ckWrite( void* c, const char* buf, size_t n)
{
	HostScope hs;
	SimFile* f = (SimFile*)c;
	IoFault* x = matchFault( "write", f->name);
	if (x)
	{
		std::string k = x->kind;
		long cut = -1;
		size_t p = k.find(':');
		if (p != std::string::npos) {cut = atol( k.c_str()+p+1);}
		if (k.compare(0,5,"crash") == 0)
		{
			if (cut > 0 && write( f->fd, buf, (size_t)cut < n ? cut : n) < 0) {}
			crashNow();
		}
		if (k.compare(0,4,"torn") == 0)
		{
			// ... part of the data reaches the disk, then the device is full
			size_t m = (size_t)cut < n ? (size_t)cut : n/2;
			if (m && write( f->fd, buf, m) < 0) {}
			k = "ENOSPC";
		}
		logIo( "write", f->name, -errnoOf( k));
		errno = errnoOf( k);
		return 0;	// ... custom streams signal errors on write with 0
	}
	ssize_t r = write( f->fd, buf, n);
	logIo( "write", f->name, r);
	return r < 0 ? 0 : r;
}
static int ckSeek( void* c, off64_t* off, int whence)
{
	SimFile* f = (SimFile*)c;
	off64_t r = lseek64( f->fd, *off, whence);
	if (r < 0) return -1;
	*off = r;
	return 0;
}
static int ckClose( void* c)
{
	HostScope hs;
	SimFile* f = (SimFile*)c;
	IoFault* x = matchFault( "close", f->name);
	close( f->fd);
	--g_openFiles;
	std::string name = f->name;
	std::string kind = x ? x->kind : std::string();
	delete f;
	if (x)
	{
		if (kind.compare(0,5,"crash") == 0) crashNow();
		logIo( "close", name, -errnoOf( kind));
		errno = errnoOf( kind);
		return -1;
	}
	logIo( "close", name, 0);
	return 0;
}
static FILE* simOpen( const char* path, const char* mode)
{
	HostScope hs;
	IoFault* x = matchFault( "open", path);
	if (x)
	{
		if (x->kind.compare(0,5,"crash") == 0) crashNow();
		errno = errnoOf( x->kind);
		logIo( "open", path, -errno);
		errno = errnoOf( x->kind);
		return nullptr;
	}
	int fl = 0;
	bool plus = strchr( mode, '+') != nullptr;
	if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
	else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY)|O_CREAT|O_TRUNC;
	else fl = (plus ? O_RDWR : O_WRONLY)|O_CREAT|O_APPEND;
	int fd = open( path, fl, 0644);
	if (fd < 0) {int e = errno; logIo( "open", path, -e); errno = e; return nullptr;}
	SimFile* f = new SimFile{fd, path, mode[0] != 'r'};
	cookie_io_functions_t io;
	io.read = ckRead; io.write = ckWrite; io.seek = ckSeek; io.close = ckClose;
	FILE* rt = fopencookie( f, mode, io);
	++g_openFiles;
	logIo( "open", path, 0);
	return rt;
}

std::string slurp( const std::string& path)
{
	HostScope hs;
	std::string rt;
	int fd = open( path.c_str(), O_RDONLY);
	if (fd < 0) return rt;
	char buf[ 65536];
	ssize_t n;
	while ((n = read( fd, buf, sizeof buf)) > 0) rt.append( buf, n);
	close( fd);
	return rt;
}
bool spit( const std::string& path, const std::string& content)
{
	HostScope hs;
	int fd = open( path.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644);
	if (fd < 0) return false;
	size_t o = 0;
	while (o < content.size())
	{
		ssize_t n = write( fd, content.data()+o, content.size()-o);
		if (n <= 0) {close( fd); return false;}
		o += n;
	}
	close( fd);
	return true;
}
bool exists( const std::string& path) {struct stat st; return 0 == stat( path.c_str(), &st);}
void stdioCapture( const std::string& outfile, const std::string& errfile)
{
	HostScope hs;
	fflush( stdout); fflush( stderr);
	if (!outfile.empty()) {int fd = open( outfile.c_str(), O_WRONLY|O_CREAT|O_TRUNC|O_APPEND, 0644); dup2( fd, 1); close( fd);}
	if (!errfile.empty()) {int fd = open( errfile.c_str(), O_WRONLY|O_CREAT|O_TRUNC|O_APPEND, 0644); dup2( fd, 2); close( fd);}
}

static size_t g_typedbMemsize = 1<<16;
void setTypedbMemsize( size_t n) {g_typedbMemsize = n;}

} // namespace sim
using namespace sim;

// ---------------------------------------------------------------- interposed functions
extern "C" size_t mewa_simulation_typedb_memsize( void) {return sim::g_typedbMemsize;}

static uint64_t g_simTime = 1600000000;
extern "C" {
time_t __wrap_time( time_t* t)
{
	if (!inSut()) return __real_time( t);
	if (t) *t = g_simTime;
	return g_simTime++;
}
void simSetTime( uint64_t t) {g_simTime = t;}
// environment, clocks and random numbers seen by the system under test
static int g_simEnv = 0;
void simSetEnv( int mode) {g_simEnv = mode;}
char* __wrap_getenv( const char* name)
{
	if (!inSut()) return __real_getenv( name);
	static char buf[ 300];
	if (g_simEnv == 0) return nullptr;
	if (g_simEnv == 1) return __real_getenv( name);
	snprintf( buf, sizeof buf, "/sim/env%d/%.200s", g_simEnv, name);
	return buf;
}
int __wrap_clock_gettime( clockid_t c, struct timespec* t)
{
	if (!inSut()) return __real_clock_gettime( c, t);
	t->tv_sec = g_simTime++; t->tv_nsec = g_simTime * 7919 % 1000000000;
	return 0;
}
int __wrap_gettimeofday( struct timeval* t, void* z)
{
	if (!inSut()) return __real_gettimeofday( t, z);
	t->tv_sec = g_simTime++; t->tv_usec = g_simTime * 7919 % 1000000;
	return 0;
}
clock_t __wrap_clock( void)	{return inSut() ? (clock_t)g_simTime++ : __real_clock();}
pid_t __wrap_getpid( void)	{return inSut() ? (pid_t)(g_simTime % 30000 + 2) : __real_getpid();}
static uint64_t simRandom()	{g_simTime += 1; return (g_simTime * 6364136223846793005ull + 1442695040888963407ull) >> 33;}
int __wrap_rand( void)		{return inSut() ? (int)(simRandom() & 0x7fffffff) : __real_rand();}
long __wrap_random( void)	{return inSut() ? (long)(simRandom() & 0x7fffffff) : __real_random();}
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv( void)	{return inSut() ? (int64_t)(g_simTime++ * 1000000000) : __real__ZNSt6chrono3_V212system_clock3nowEv();}
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv( void)	{return inSut() ? (int64_t)(g_simTime++ * 1000000000) : __real__ZNSt6chrono3_V212steady_clock3nowEv();}
unsigned __wrap__ZNSt13random_device9_M_getvalEv( void* o)	{return inSut() ? (unsigned)simRandom() : __real__ZNSt13random_device9_M_getvalEv( o);}
void* __wrap_malloc( size_t n)			{return inSut() ? sutCpp( n, 16) : __real_malloc( n);}
void* __wrap_aligned_alloc( size_t a, size_t n)	{return inSut() ? sutCpp( n, a < 16 ? 16 : a) : __real_aligned_alloc( a < 16 ? 16 : a, n);}
void* __wrap_calloc( size_t n, size_t m)
{
	if (!inSut()) return __real_calloc( n, m);
	void* rt = sutCpp( n*m, 16);
	if (rt) memset( rt, 0, n*m);
	return rt;
}
void __wrap_free( void* p)
{
	if (!p) return;
	if (inArena( p)) arenaFree( p); else __real_free( p);
}
void* __wrap_realloc( void* p, size_t n)
{
	if (!p) return __wrap_malloc( n);
	if (!inArena( p)) return __real_realloc( p, n);
	if (!n) {arenaFree( p); return nullptr;}
	void* np = sutCpp( n, 16);
	if (!np) return nullptr;
	size_t os = arenaSizeOf( p);
	memcpy( np, p, os < n ? os : n);
	arenaFree( p);
	return np;
}
FILE* __wrap_fopen( const char* path, const char* mode)		{return inSut() ? simOpen( path, mode) : __real_fopen( path, mode);}
FILE* __wrap_fopen64( const char* path, const char* mode)	{return __wrap_fopen( path, mode);}
int __wrap___cxa_guard_acquire( uint64_t* g)
{
	++t_noyield;
	if (t_noyield == 1 && t_sut) {}
	int rt = __real___cxa_guard_acquire( g);
	if (!rt) --t_noyield;
	return rt;
}
void __wrap___cxa_guard_release( uint64_t* g) {__real___cxa_guard_release( g); --t_noyield;}
void __wrap___cxa_guard_abort( uint64_t* g) {__real___cxa_guard_abort( g); --t_noyield;}
}

static void* opnew( size_t n, size_t align)
{
	void* rt;
	if (inSut() && !t_noyield) rt = sutCpp( n, align);
	else rt = align <= 16 ? __real_malloc( n ? n : 1) : __real_aligned_alloc( align, (n + align - 1) / align * align);
	if (!rt) throw std::bad_alloc();
	return rt;
}
static void opdel( void* p)
{
	if (!p) return;
	if (inArena( p)) arenaFree( p); else __real_free( p);
}
void* operator new( size_t n)					{return opnew( n, 16);}
void* operator new[]( size_t n)					{return opnew( n, 16);}
void* operator new( size_t n, std::align_val_t a)		{return opnew( n, (size_t)a < 16 ? 16 : (size_t)a);}
void* operator new[]( size_t n, std::align_val_t a)		{return opnew( n, (size_t)a < 16 ? 16 : (size_t)a);}
void* operator new( size_t n, const std::nothrow_t&) noexcept	{try {return opnew( n, 16);} catch (...) {return nullptr;}}
void* operator new[]( size_t n, const std::nothrow_t&) noexcept	{try {return opnew( n, 16);} catch (...) {return nullptr;}}
void operator delete( void* p) noexcept				{opdel( p);}
void operator delete[]( void* p) noexcept			{opdel( p);}
void operator delete( void* p, size_t) noexcept			{opdel( p);}
void operator delete[]( void* p, size_t) noexcept		{opdel( p);}
void operator delete( void* p, std::align_val_t) noexcept	{opdel( p);}
void operator delete[]( void* p, std::align_val_t) noexcept	{opdel( p);}
void operator delete( void* p, size_t, std::align_val_t) noexcept	{opdel( p);}
void operator delete[]( void* p, size_t, std::align_val_t) noexcept	{opdel( p);}
void operator delete( void* p, const std::nothrow_t&) noexcept	{opdel( p);}
void operator delete[]( void* p, const std::nothrow_t&) noexcept	{opdel( p);}
