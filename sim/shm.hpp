#pragma once
#include <cstdint>
namespace sim {
// Shared between the zygote and the forked child executing one run
struct Shm
{
	volatile int done;
	volatile int crashed;		// simulated crash of a simulated process
	uint64_t hash;
	long nevents;
	char prop[ 16];
	char op[ 256];			// operation in progress
	char crash[ 256];
	char viol[ 32768];
	char stats[ 65536];
	char user[ 1<<20];		// for worlds: data handed from grandchild processes to their parent
};
extern Shm* g_shm;
extern unsigned char* g_cov;	// basic blocks of the code under test reached, by address
extern unsigned long g_covBase, g_covSize;
void covInit();
}
