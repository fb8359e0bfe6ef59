// Controlled scheduling of real threads.  See vsched.cpp.
#ifndef VP_VSCHED_H
#define VP_VSCHED_H
#include <string>
#include <vector>
#include <functional>
// ---- for drivers ------------------------------------------------------------------------
typedef std::vector<std::string> VsToks;
void	vs_scenario(const VsToks& header, const std::vector<VsToks>& ops);	// supplied by the driver: runs one schedule, on managed thread 0
// event building: every event is built and appended without scheduling points
void	vs_quiet(int delta);			// +1: no scheduling points, -1: as before
struct	VsQuiet { VsQuiet() { vs_quiet(1); } ~VsQuiet() { vs_quiet(-1); } };
void	vs_log(const std::string& json);	// one complete event
int	vs_me();				// number of the running managed thread
int	vs_spawn(std::function<void()> body);	// start a managed thread (not one of the library's)
void	vs_wait(int thread);			// wait for it
long	vs_clock_us();				// virtual time
void	vs_stuckinfo(int actors);		// reported when no thread can run
void	vs_point();				// a scheduling point
int	vs_unreaped();				// threads that have ended and were neither joined nor detached
int	vs_failed();				// threads that could not be created
int	vs_option(const char* name, int dflt);	// from the scenario's header: name=value
long	vs_livecount();				// heap blocks allocated by this schedule and not freed
struct VsJ	// little JSON builder
{
	std::string s; bool c;
	VsJ(const char* op) : s("{\"op\":\""), c(true) { s += op; s += '"'; }
	VsJ& key(const char* k) { s += ",\""; s += k; s += "\":"; return *this; }
	VsJ& i(const char* k, long long v) { key(k); s += std::to_string(v); return *this; }
	VsJ& b(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
	template<class V> VsJ& vec(const char* k, const V& v) { key(k); s += '['; bool f = false; for (auto x : v) { if (f) s += ','; f = true; s += std::to_string((long long)x); } s += ']'; return *this; }
	void log() { vs_log(s+"}"); }
};
#endif
