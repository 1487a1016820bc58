#include "world.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <dirent.h>
#include <errno.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif
using namespace sim;

extern "C" const char* __asan_default_options()
{
	return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=4:quarantine_size_mb=8:allow_user_segv_handler=1:print_summary=1:check_printf=0";
}
extern "C" const char* __ubsan_default_options() {return "print_stacktrace=1:halt_on_error=1:exitcode=99";}

namespace sim {
int runForked( const std::function<void()>& fn)
{
	HostScope hs;
	fflush( stdout); fflush( stderr);
	pid_t pid = fork();
	if (pid < 0) {perror( "fork"); _exit( 98);}
	if (pid == 0) {fn(); _exit( 0);}
	int st = 0;
	while (waitpid( pid, &st, 0) < 0 && errno == EINTR) {}
	return st;
}
std::string runForkedText( const std::function<std::string()>& fn, bool stats)
{
	HostScope hs;
	g_shm->user[0] = 0;
	int st = runForked( [&]{
		std::string r = fn();
		if (r.size() + 1 > sizeof(g_shm->user)) r.resize( sizeof(g_shm->user) - 1);
		memcpy( g_shm->user, r.c_str(), r.size()+1);
		if (stats) exportStats();
	});
	if (WIFSIGNALED(st)) {signal( WTERMSIG(st), SIG_DFL); raise( WTERMSIG(st));}
	if (WIFEXITED(st) && WEXITSTATUS(st) != 0) _exit( WEXITSTATUS(st));
	if (stats) importStats();
	return std::string( g_shm->user);
}
AllocKnobs knobsOf( const Line& l)
{
	AllocKnobs k;
	k.layoutSeed = l.geti( "layout", 1);
	k.reusePct = l.geti( "reuse", 0);
	k.gapMax = l.geti( "gap", 0);
	k.fillByte = l.geti( "fill", -1);
	return k;
}
}

static const World* findWorld( const std::string& n)
{
	const World* all[] = {&worldA,&worldB,&worldC,nullptr};
	for (int i=0; all[i]; ++i) if (n == all[i]->name) return all[i];
	fprintf( stderr, "unknown world %s\n", n.c_str());
	exit( 2);
}

static void rmtree( const std::string& dir)
{
	DIR* d = opendir( dir.c_str());
	if (!d) return;
	while (dirent* e = readdir( d))
	{
		std::string n = e->d_name;
		if (n == "." || n == "..") continue;
		std::string p = dir + "/" + n;
		struct stat st;
		if (lstat( p.c_str(), &st) == 0 && S_ISDIR( st.st_mode)) {rmtree( p); rmdir( p.c_str());}
		else unlink( p.c_str());
	}
	closedir( d);
}

static int cpuLimit()
{
	const char* e = getenv( "SIM_CPU");
	return e ? atoi( e) : 20;
}

struct Result
{
	std::string status;	// OK, VIOLATION, CRASH, HANG, ERROR
	std::string detail;
	uint64_t hash;
	std::string viol;
};

static Result runPlan( const Plan& plan, const std::string& tmpdir, int timeout_s)
{
	const World* w = findWorld( plan.world);
	memset( (void*)g_shm, 0, offsetof(Shm,viol)+1);
	g_shm->stats[0] = 0;
	g_shm->user[0] = 0;
	snprintf( g_shm->prop, sizeof(g_shm->prop), "%s", plan.prop.c_str());
	rmtree( tmpdir);
	std::string errfile = tmpdir + ".err";
	fflush( stdout);
	sigset_t ss; sigemptyset( &ss); sigaddset( &ss, SIGCHLD); sigprocmask( SIG_BLOCK, &ss, nullptr);
	pid_t pid = fork();
	if (pid == 0)
	{
		sigprocmask( SIG_UNBLOCK, &ss, nullptr);
		setpgid( 0, 0);
		struct rlimit rl; rl.rlim_cur = cpuLimit(); rl.rlim_max = rl.rlim_cur + 5;
		setrlimit( RLIMIT_CPU, &rl); //... a loop without allocation or I/O is no step of the simulation, only processor time
		if (0 != chdir( tmpdir.c_str())) _exit( 97);
		int fd = open( errfile.c_str(), O_WRONLY|O_CREAT|O_TRUNC|O_APPEND, 0644);
		dup2( fd, 2); close( fd);
		fd = open( "/dev/null", O_RDONLY); dup2( fd, 0); close( fd);
		if (!verbose()) {fd = open( "/dev/null", O_WRONLY); dup2( fd, 1); close( fd);}
#if defined(__SANITIZE_ADDRESS__)
		__sanitizer_set_report_path( (tmpdir + ".asan").c_str());
#endif
		if (verbose()) dup2( atoi( getenv("SIM_VERBOSE")), 200);
		w->exec( plan);
		finishRun();
	}
	int st = 0;
	struct timespec ts; ts.tv_sec = timeout_s; ts.tv_nsec = 0;
	bool hang = false;
	struct timespec t0; clock_gettime( CLOCK_MONOTONIC, &t0);
	for (;;)
	{
		pid_t r = waitpid( pid, &st, WNOHANG);
		if (r == pid) break;
		int s = sigtimedwait( &ss, nullptr, &ts);
		struct timespec t1; clock_gettime( CLOCK_MONOTONIC, &t1);
		if (s < 0 && errno == EAGAIN && t1.tv_sec - t0.tv_sec >= timeout_s)
		{
			hang = true;
			kill( -pid, SIGKILL); kill( pid, SIGKILL);
			waitpid( pid, &st, 0);
			break;
		}
	}
	Result rt;
	rt.hash = g_shm->hash;
	rt.viol = g_shm->viol;
	auto readErr = [&]() {
		std::string t;
		std::string f = tmpdir + ".asan." + std::to_string( pid);
		// grandchildren write reports with their own pid
		std::string base = tmpdir.substr( tmpdir.rfind('/')+1) + ".asan.";
		std::string dir = tmpdir.substr( 0, tmpdir.rfind('/'));
		DIR* d = opendir( dir.c_str());
		std::vector<std::string> del;
		if (d) {while (dirent* e = readdir( d)) if (strncmp( e->d_name, base.c_str(), base.size()) == 0) {t += slurp( dir + "/" + e->d_name); del.push_back( dir + "/" + e->d_name);} closedir( d);}
		for (auto& x : del) unlink( x.c_str());
		return t + slurp( errfile);
	};
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) {hang = true; timeout_s = cpuLimit();}
	if (hang) {rt.status = "HANG"; rt.detail = strf( "no end within %d s of processor time budget in: %s", timeout_s, g_shm->op);}
	else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && g_shm->done) {rt.status = rt.viol.empty() ? "OK" : "VIOLATION";}
	else if (WIFEXITED(st) && (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 97)) {rt.status = "ERROR"; rt.detail = slurp( errfile);}
	else
	{
		std::string e = readErr();
		std::string sum;
		size_t p = e.find( "SUMMARY: ");
		if (p != std::string::npos) sum = e.substr( p, e.find( '\n', p) - p);
		size_t q = e.find( "terminate called");
		if (q != std::string::npos) sum += " " + e.substr( q, 200);
		q = e.find( "runtime error:");
		if (q != std::string::npos) sum += " " + e.substr( q, e.find( '\n', q) - q);
		if (sum.empty() && !e.empty()) sum = e.substr( 0, 300);
		rt.status = "CRASH";
		rt.detail = strf( "%s in operation '%s': %s %s", WIFSIGNALED(st) ? strf( "signal %d", WTERMSIG(st)).c_str() : strf( "exit %d", WEXITSTATUS(st)).c_str(), g_shm->op, g_shm->crash, sum.c_str());
		if (getenv("SIM_FULLERR")) rt.detail += "\n" + e;
	}
	if (rt.status != "CRASH" && rt.status != "OK") readErr();
	return rt;
}

int main( int argc, char** argv)
{
	if (!getenv( "SIM_NOASLR"))
	{
		setenv( "SIM_NOASLR", "1", 1);
		int p = personality( 0xffffffff);
		if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality( p | ADDR_NO_RANDOMIZE) != -1) execv( "/proc/self/exe", argv);
	}
	if (argc < 2) {fprintf( stderr, "usage: sim batch|plan|exec ...\n"); return 2;}
	std::string cmd = argv[1];
	g_shm = (Shm*)mmap( nullptr, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	int timeout_s = getenv("SIM_TIMEOUT") ? atoi( getenv("SIM_TIMEOUT")) : 60;
	signal( SIGPIPE, SIG_IGN);
	if (cmd == "plan")	// world prop seed tier
	{
		Plan p = findWorld( argv[2])->gen( strtoull( argv[4],0,10), argv[3], argc > 5 && std::string(argv[5]) == "thorough");
		fputs( p.text().c_str(), stdout);
		return 0;
	}
	else if (cmd == "exec")	// planfile tmpdir
	{
		std::string text = slurp( argv[2]);
		Plan p = Plan::parse( text);
		std::string tmp = argv[3];
		mkdir( tmp.c_str(), 0755);
		if (verbose()) {setenv( "SIM_VERBOSE", "1", 1);}
		Result r = runPlan( p, tmp, timeout_s);
		printf( "R\t0\t%016llx\t%s\t%s\n", (unsigned long long)r.hash, r.status.c_str(), quote( r.detail, 4000).c_str());
		fputs( r.viol.empty() ? "" : ("V\t" + r.viol).c_str(), stdout);
		if (!getenv("SIM_KEEP")) {rmtree( tmp); rmdir( tmp.c_str()); unlink( (tmp + ".err").c_str());}
		return 0;
	}
	else if (cmd == "batch")	// world prop seed0 stride count seconds tmpdir tier
	{
		const World* w = findWorld( argv[2]);
		std::string prop = argv[3];
		uint64_t seed0 = strtoull( argv[4],0,10);
		uint64_t stride = strtoull( argv[5],0,10);
		long count = atol( argv[6]);
		double seconds = atof( argv[7]);
		std::string tmp = argv[8];
		bool thorough = argc > 9 && std::string(argv[9]) == "thorough";
		mkdir( tmp.c_str(), 0755);
		covInit();
		std::map<std::string,long> stats;
		struct timespec t0, t1;
		clock_gettime( CLOCK_MONOTONIC, &t0);
		long bad = 0;
		for (long i=0; i<count; ++i)
		{
			clock_gettime( CLOCK_MONOTONIC, &t1);
			if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > seconds) break;
			uint64_t seed = seed0 + stride * i;
			Plan p = w->gen( seed, prop, thorough);
			Result r = runPlan( p, tmp, timeout_s);
			stats["runs"]++;
			stats["events"] += g_shm->nevents;
			stats["planlines"] += p.lines.size();
			printf( "H\t%016llx\n", (unsigned long long)r.hash);
			// merge statistics
			const char* s = g_shm->stats;
			while (*s)
			{
				const char* t = strchr( s, '\t'); const char* e = strchr( s, '\n');
				if (!t || !e) break;
				std::string k( s, t-s);
				long v = atol( t+1);
				if (k.compare(0,4,"max:") == 0) {if (v > stats[k]) stats[k] = v;} else stats[k] += v;
				s = e+1;
			}
			if (r.status != "OK")
			{
				stats["status:" + r.status]++;
				printf( "R\t%llu\t%016llx\t%s\t%s\n", (unsigned long long)seed, (unsigned long long)r.hash, r.status.c_str(), quote( r.detail, 4000).c_str());
				const char* v = g_shm->viol;
				while (*v)
				{
					const char* e = strchr( v, '\n');
					if (!e) break;
					printf( "V\t%llu\t%.*s\n", (unsigned long long)seed, (int)(e-v), v);
					v = e+1;
				}
				fflush( stdout);
				if (r.status != "VIOLATION" || strstr( g_shm->viol, (prop + "\t").c_str()))
				{
					if (++bad >= 3) break;
				}
			}
		}
		clock_gettime( CLOCK_MONOTONIC, &t1);
		stats["wall_ms"] = (long)(((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9) * 1000);
		for (auto& kv : stats) printf( "S\t%s\t%ld\n", kv.first.c_str(), kv.second);
		printf( "B"); for (unsigned long i=0; i<g_covSize; ++i) if (g_cov && g_cov[i]) printf( "\t%lx", g_covBase+i); printf( "\n");
		printf( "END\n");
		rmtree( tmp); rmdir( tmp.c_str()); unlink( (tmp + ".err").c_str());
		return 0;
	}
	return 2;
}
