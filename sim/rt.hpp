// Deterministic simulation runtime: randomness, recorded events, allocator, scheduler, simulated I/O.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
extern "C" {
#include <lua.h>
#include <lauxlib.h>
#include <lualib.h>
}

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng
{
	uint64_t s;
	explicit Rng( uint64_t seed) :s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {next();}
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	int below( int n)		{return n <= 1 ? 0 : (int)(next() % (uint64_t)n);}
	int range( int a, int b)	{return a + below( b-a+1);}
	bool chance( int pct)		{return below(100) < pct;}
	template <class T> const T& pick( const std::vector<T>& v)	{return v[ below( v.size())];}
};

inline uint64_t fnv( uint64_t h, const void* p, size_t n)
{
	const unsigned char* c = (const unsigned char*)p;
	for (size_t i=0; i<n; ++i) {h ^= c[i]; h *= 0x100000001b3ull;}
	return h;
}

// ---------------------------------------------------------------- plans
// A plan is a list of text lines. Every line is a list of blank separated words; "key=value" words are attributes.
struct Line
{
	std::vector<std::string> w;
	std::map<std::string,std::string> kv;

	static Line parse( const std::string& s);
	const std::string& at( size_t i) const;
	long num( size_t i) const;
	bool has( const char* k) const			{return kv.count(k) != 0;}
	std::string get( const char* k, const char* d="") const;
	long geti( const char* k, long d) const;
};

struct Plan
{
	std::string world;
	std::string prop;
	std::vector<std::string> lines;

	std::string text() const;
	static Plan parse( const std::string& text);
};

// ---------------------------------------------------------------- results of a run (reported through a pipe by the forked child)
void ev( const char* fmt, ...) __attribute__((format(printf,1,2)));		// event of the recorded history (hashed)
void violation( const char* prop, const char* oracle, const char* fmt, ...) __attribute__((format(printf,3,4)));
void note( const char* key, long n=1);						// statistics counter
void maxnote( const char* key, long n);
void probe( const char* key);							// rare branch / state reached
void exportStats();						// hand over the statistics to the parent process
void importStats();						// add the statistics handed over by a forked process
uint64_t histhash();
bool verbose();
long nofViolations();
[[noreturn]] void finishRun();							// report and end the child process
std::string strf( const char* fmt, ...) __attribute__((format(printf,1,2)));
std::string quote( const std::string& s, size_t maxlen=200);
std::string hex( const std::string& s);
std::string unhex( const std::string& s);

// ---------------------------------------------------------------- SUT context, allocator
struct AllocKnobs
{
	uint64_t layoutSeed = 0;	// seeds gaps between blocks and choice of reuse
	int reusePct = 0;		// probability that a free block is reused
	int gapMax = 0;			// maximal gap between fresh blocks in units of 16 bytes
	int fillByte = -1;		// byte to fill fresh blocks with, -1 for none
};
void allocInit( const AllocKnobs& k);
void beginProcess( const AllocKnobs& k);			// start of a simulated process in a forked child: its own heap layout and statistics

struct FaultCtx
{
	// allocation faults, counted from begin of the operation, 1 based, 0 = none
	long failCpp = 0;		// n-th C++ allocation fails (operator new / malloc)
	long failLua = 0;		// n-th allocation of Lua fails for good
	long egc = 0;			// n-th allocation of Lua fails once, what triggers an emergency full collection
	bool persistent = false;	// all allocations from the n-th on fail
	long failBig = 0;		// C++ allocations of at least that many bytes fail, 0 = none (memory nearly exhausted)
	// results
	long nCpp = 0, nLua = 0;
	long firedCpp = 0, firedLua = 0, firedEgc = 0, firedBig = 0;
};
FaultCtx& faults();			// of the current thread

void enterSut();
void leaveSut();
bool inSut();
struct SutScope {SutScope() {enterSut();} ~SutScope() {leaveSut();}};
struct HostScope
{
	int saved;
	HostScope(); ~HostScope();
};
long sutSteps();			// steps (allocations, I/O operations, Lua instructions/1000) made in the current operation
void setStepBudget( long n);		// bound on the steps of one operation
long totalSteps();			// simulated time in steps

void trackMemory();			// start to track blocks allocated by the C++ code under test
struct TrackScope {TrackScope(); ~TrackScope();};	// calls of the code under test, only blocks allocated in there are tracked
int dropExceptions();			// release exception objects abandoned in a handler, returns their number
int abandonedExceptions();		// number of exception objects abandoned so far
std::string unreleased();		// description of the blocks allocated since and not released, empty if there are none

lua_State* newState();			// a new Lua state with the simulated allocator
void closeState( lua_State* L);

// ---------------------------------------------------------------- scheduler: one parked thread per actor
struct Quantum {int actor; long n;};
void runActors( const std::vector<std::function<void()> >& actors, const std::vector<Quantum>& schedule);
void setPreemption( bool on);		// switches between actors at every basic block, schedule repeated
void yieldPoint( int kind);		// 0 op boundary, 1 allocation, 2 I/O, 3 callback
int currentActor();			// -1 if none

// ---------------------------------------------------------------- simulated disk
struct IoFault
{
	std::string match;	// substring of the file name, "*" for any
	std::string op;		// open, read, write, close
	long at;		// n-th such operation, 1 based
	std::string kind;	// errno name, "short", "torn:<n>:<errno>", "crash", "crash:<n>"
	long count = 0;
	long fired = 0;
};
void ioFaults( const std::vector<IoFault>& f);	// install fault list for the following operations of this actor
std::vector<IoFault>& ioFaultList();
int openFiles();			// number of simulated files currently open
long ioOps();				// number of I/O operations so far
void ioChunk( int n);			// maximal bytes delivered per read, 0 = unlimited
struct IoOp {std::string op, file; long res;};
std::vector<IoOp>& ioLog();
void stdioCapture( const std::string& outfile, const std::string& errfile);	// redirect fd 1 and 2 to files
std::string slurp( const std::string& path);
bool spit( const std::string& path, const std::string& content);
bool exists( const std::string& path);
extern long stepBudgetDefault;

// knob of the guarded hook
void setTypedbMemsize( size_t n);

} // namespace sim
