#include "wit.hpp"
#include <sys/wait.h>
#include "variant.inl.hpp"
using namespace Helper; using namespace wit;
template<size_t C> struct Alt { static constexpr size_t code() { return C; } };
template<int C> struct Neg { static constexpr int code() { return C; } };
enum class En : unsigned char { A = 200, B = 3, D = 0 }; template<En C> struct Ealt { static constexpr En code() { return C; } };
struct Vis { long calls = 0; size_t which = 0; template<size_t C> std::string operator()(Alt<C>) { ++calls; which = C; return "r" + str(C); } };
struct NVis { long calls = 0; long which = 0; template<int C> long operator()(Neg<C>) { ++calls; which = C; return 10 * long(C); } template<En C> long operator()(Ealt<C>) { ++calls; which = long(C); return 10 * long(C); } };
template<class V, class X> void aborts(X const& x, V const& v0, std::string const& what) {
    int fd[2]; expect(pipe(fd) == 0, "pipe"); pid_t p = fork();
    if (p == 0) { V* v = (V*)malloc(sizeof(V)); new (v) V(v0); struct sigaction sa{}; static V* watched; static int out; watched = v; out = fd[1]; signal(SIGABRT, [](int) { char c = watched->calls == 0 ? 'n' : 'c'; ssize_t r = write(out, &c, 1); (void)r; _exit(9); }); x.accept(*v); char c = 'r'; ssize_t r = write(fd[1], &c, 1); (void)r; _exit(0); }
    close(fd[1]); char c = '?'; ssize_t r = read(fd[0], &c, 1); (void)r; close(fd[0]); int s; waitpid(p, &s, 0); same(c, 'n', what + ": aborts without calling the visitor"); }
template<size_t... CS> void variants(bool fork_) {
    using V = CodedVariant<size_t,Alt<CS>...>; size_t cs[] = {CS...};
    for (size_t code : cs) { begin(str(sizeof...(CS)) + " alternatives, code " + str(code)); V x(code); same(x.code(), code, "code"); Vis v; same(x.accept(v), "r" + str(code), "result"); same(v.calls, 1l, "calls"); same(v.which, code, "alternative visited"); same(x.code(), code, "code after visiting");
        ((same(holds_alternative<Alt<CS>>(x), CS == code, "holds alternative " + str(CS))), ...); V y(x); same(y.code(), code, "code of a copy"); }
    ((same(V(Alt<CS>()).code(), CS, "variant built from alternative " + str(CS))), ...);
    if (fork_) for (size_t code : {size_t(999), ~size_t(0), size_t(1) << 33}) { begin(str(sizeof...(CS)) + " alternatives, code " + str(code)); aborts<Vis>(V(code), Vis(), "unknown code"); } }
void wit::run() {
    bool f = true;
    variants<37>(f); variants<37,5>(f); variants<37,5,300>(f); variants<37,5,300,1>(f); variants<37,5,300,1,6>(f); variants<37,5,300,1,6,12>(f); variants<37,5,300,1,6,12,90>(f); variants<37,5,300,1,6,12,90,0>(f); variants<37,5,300,1,6,12,90,0,7>(f); variants<37,5,300,1,6,12,90,0,7,255>(f);
    variants<37,5,300,1,6,12,90,0,7,255,256>(f); variants<37,5,300,1,6,12,90,0,7,255,256,2>(f); variants<37,5,300,1,6,12,90,0,7,255,256,2,66>(f); variants<37,5,300,1,6,12,90,0,7,255,256,2,66,(1ul<<40)>(f); variants<37,5,300,1,6,12,90,0,7,255,256,2,66,(1ul<<40),8>(f); variants<37,5,300,1,6,12,90,0,7,255,256,2,66,(1ul<<40),8,13>(f);
    variants<0>(f); variants<1,0>(f); variants<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15>(f); variants<15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0>(f);
    { using V = CodedVariant<int,Neg<-5>,Neg<5>,Neg<0>>; for (int c : {-5, 5, 0}) { begin("code " + str(c)); V x(c); NVis v; same(x.accept(v), 10l * c, "result"); same(v.calls, 1l, "calls"); same(v.which, long(c), "alternative"); } begin("code 4"); aborts<NVis>(V(4), NVis(), "unknown code"); begin("code -1"); aborts<NVis>(V(-1), NVis(), "unknown code"); }
    { using V = CodedVariant<En,Ealt<En::A>,Ealt<En::B>,Ealt<En::D>>; for (En c : {En::A, En::B, En::D}) { begin("code " + str(int(c))); V x(c); NVis v; same(x.accept(v), 10l * long(c), "result"); same(v.calls, 1l, "calls"); same(v.which, long(c), "alternative"); expect(holds_alternative<Ealt<En::A>>(x) == (c == En::A), "holds"); } begin("code 7"); aborts<NVis>(V(En(7)), NVis(), "unknown code"); } }
