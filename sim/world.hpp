#pragma once
#include "rt.hpp"
#include "shm.hpp"
namespace sim {
struct World
{
	const char* name;
	Plan (*gen)( uint64_t seed, const std::string& prop, bool thorough);
	void (*exec)( const Plan& plan);
};
extern const World worldA, worldB, worldC;
// run a function in a forked process; its results are what it wrote to g_shm; returns the wait status
int runForked( const std::function<void()>& fn);
// fork, run, hand back what the function returned as string; a crash of the forked process crashes this one
std::string runForkedText( const std::function<std::string()>& fn, bool stats=false);
AllocKnobs knobsOf( const Line& l);
}
