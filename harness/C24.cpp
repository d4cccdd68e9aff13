// every number of alternatives; codes are in no order, and some agree in their low bits
#include <cstdlib>
#include <cstddef>
#include "variant.inl.hpp"
#include "opaque.hpp"
using namespace Helper; using namespace vf; using std::size_t;
namespace vf { E visited(size_t) noexcept; }
template<size_t C> struct Alt { static constexpr size_t code() { return C; } };
struct Vis { size_t calls; size_t which; template<size_t C> E operator()(Alt<C>) { ++calls; which=C; return visited(C); } };
// a visitor with a void and with a reference result
struct Note { size_t calls; size_t which; template<size_t C> void operator()(Alt<C>) { ++calls; which=C; } };
struct Ref { size_t calls; size_t which; long slot[32]; template<size_t C> long& operator()(Alt<C>) { ++calls; which=C; return slot[C%32]; } };
enum class En : int { A=-3, B=7, C=1000000, D=0 };
template<En C> struct Ealt { static constexpr En code() { return C; } };
struct EVis { size_t calls; int which; template<En C> E operator()(Ealt<C>) { ++calls; which=(int)C; return visited((size_t)(int)C); } };
extern "C" {
using V1 = CodedVariant<size_t,Alt<37ul>>;
void vf_accept_1(E* at, size_t code, Vis& v) { V1 x(code); new (at) E(x.accept(v)); }
void vf_note_1(size_t code, Note& v) { V1 x(code); x.accept(v); }
long* vf_ref_1(size_t code, Ref& v) { V1 x(code); return &x.accept(v); }
size_t vf_built_1() { V1 x{Alt<37ul>()}; return x.code(); }
using V2 = CodedVariant<size_t,Alt<37ul>,Alt<5ul>>;
void vf_accept_2(E* at, size_t code, Vis& v) { V2 x(code); new (at) E(x.accept(v)); }
void vf_note_2(size_t code, Note& v) { V2 x(code); x.accept(v); }
size_t vf_built_2() { V2 x{Alt<5ul>()}; return x.code(); }
using V3 = CodedVariant<size_t,Alt<37ul>,Alt<5ul>,Alt<300ul>>;
void vf_accept_3(E* at, size_t code, Vis& v) { V3 x(code); new (at) E(x.accept(v)); }
void vf_note_3(size_t code, Note& v) { V3 x(code); x.accept(v); }
size_t vf_built_3() { V3 x{Alt<300ul>()}; return x.code(); }
using V4 = CodedVariant<size_t,Alt<37ul>,Alt<5ul>,Alt<300ul>,Alt<1ul>>;
void vf_accept_4(E* at, size_t code, Vis& v) { V4 x(code); new (at) E(x.accept(v)); }
void vf_note_4(size_t code, Note& v) { V4 x(code); x.accept(v); }
long* vf_ref_4(size_t code, Ref& v) { V4 x(code); return &x.accept(v); }
size_t vf_built_4() { V4 x{Alt<1ul>()}; return x.code(); }
using V5 = CodedVariant<size_t,Alt<37ul>,Alt<5ul>,Alt<300ul>,Alt<1ul>,Alt<4294967301ul>>;
void vf_accept_5(E* at, size_t code, Vis& v) { V5 x(code); new (at) E(x.accept(v)); }
void vf_note_5(size_t code, Note& v) { V5 x(code); x.accept(v); }
size_t vf_built_5() { V5 x{Alt<4294967301ul>()}; return x.code(); }
using V6 = CodedVariant<size_t,Alt<37ul>,Alt<5ul>,Alt<300ul>,Alt<1ul>,Alt<4294967301ul>,Alt<12ul>>;
void vf_accept_6(E* at, size_t code, Vis& v) { V6 x(code); new (at) E(x.accept(v)); }
void vf_note_6(size_t code, Note& v) { V6 x(code); x.accept(v); }
size_t vf_built_6() { V6 x{Alt<12ul>()}; return x.code(); }
using V7 = CodedVariant<size_t,Alt<37ul>,Alt<5ul>,Alt<300ul>,Alt<1ul>,Alt<4294967301ul>,Alt<12ul>,Alt<90ul>>;
void vf_accept_7(E* at, size_t code, Vis& v) { V7 x(code); new (at) E(x.accept(v)); }
void vf_note_7(size_t code, Note& v) { V7 x(code); x.accept(v); }
size_t vf_built_7() { V7 x{Alt<90ul>()}; return x.code(); }
using V8 = CodedVariant<size_t,Alt<37ul>,Alt<5ul>,Alt<300ul>,Alt<1ul>,Alt<4294967301ul>,Alt<12ul>,Alt<90ul>,Alt<0ul>>;
void vf_accept_8(E* at, size_t code, Vis& v) { V8 x(code); new (at) E(x.accept(v)); }
void vf_note_8(size_t code, Note& v) { V8 x(code); x.accept(v); }
size_t vf_built_8() { V8 x{Alt<0ul>()}; return x.code(); }
using V9 = CodedVariant<size_t,Alt<37ul>,Alt<5ul>,Alt<300ul>,Alt<1ul>,Alt<4294967301ul>,Alt<12ul>,Alt<90ul>,Alt<0ul>,Alt<7ul>>;
void vf_accept_9(E* at, size_t code, Vis& v) { V9 x(code); new (at) E(x.accept(v)); }
void vf_note_9(size_t code, Note& v) { V9 x(code); x.accept(v); }
long* vf_ref_9(size_t code, Ref& v) { V9 x(code); return &x.accept(v); }
size_t vf_built_9() { V9 x{Alt<7ul>()}; return x.code(); }
using V10 = CodedVariant<size_t,Alt<37ul>,Alt<5ul>,Alt<300ul>,Alt<1ul>,Alt<4294967301ul>,Alt<12ul>,Alt<90ul>,Alt<0ul>,Alt<7ul>,Alt<255ul>>;
void vf_accept_10(E* at, size_t code, Vis& v) { V10 x(code); new (at) E(x.accept(v)); }
void vf_note_10(size_t code, Note& v) { V10 x(code); x.accept(v); }
size_t vf_built_10() { V10 x{Alt<255ul>()}; return x.code(); }
using V11 = CodedVariant<size_t,Alt<37ul>,Alt<5ul>,Alt<300ul>,Alt<1ul>,Alt<4294967301ul>,Alt<12ul>,Alt<90ul>,Alt<0ul>,Alt<7ul>,Alt<255ul>,Alt<256ul>>;
void vf_accept_11(E* at, size_t code, Vis& v) { V11 x(code); new (at) E(x.accept(v)); }
void vf_note_11(size_t code, Note& v) { V11 x(code); x.accept(v); }
size_t vf_built_11() { V11 x{Alt<256ul>()}; return x.code(); }
using V12 = CodedVariant<size_t,Alt<37ul>,Alt<5ul>,Alt<300ul>,Alt<1ul>,Alt<4294967301ul>,Alt<12ul>,Alt<90ul>,Alt<0ul>,Alt<7ul>,Alt<255ul>,Alt<256ul>,Alt<2ul>>;
void vf_accept_12(E* at, size_t code, Vis& v) { V12 x(code); new (at) E(x.accept(v)); }
void vf_note_12(size_t code, Note& v) { V12 x(code); x.accept(v); }
size_t vf_built_12() { V12 x{Alt<2ul>()}; return x.code(); }
using V13 = CodedVariant<size_t,Alt<37ul>,Alt<5ul>,Alt<300ul>,Alt<1ul>,Alt<4294967301ul>,Alt<12ul>,Alt<90ul>,Alt<0ul>,Alt<7ul>,Alt<255ul>,Alt<256ul>,Alt<2ul>,Alt<66ul>>;
void vf_accept_13(E* at, size_t code, Vis& v) { V13 x(code); new (at) E(x.accept(v)); }
void vf_note_13(size_t code, Note& v) { V13 x(code); x.accept(v); }
size_t vf_built_13() { V13 x{Alt<66ul>()}; return x.code(); }
using V14 = CodedVariant<size_t,Alt<37ul>,Alt<5ul>,Alt<300ul>,Alt<1ul>,Alt<4294967301ul>,Alt<12ul>,Alt<90ul>,Alt<0ul>,Alt<7ul>,Alt<255ul>,Alt<256ul>,Alt<2ul>,Alt<66ul>,Alt<1099511627776ul>>;
void vf_accept_14(E* at, size_t code, Vis& v) { V14 x(code); new (at) E(x.accept(v)); }
void vf_note_14(size_t code, Note& v) { V14 x(code); x.accept(v); }
size_t vf_built_14() { V14 x{Alt<1099511627776ul>()}; return x.code(); }
using V15 = CodedVariant<size_t,Alt<37ul>,Alt<5ul>,Alt<300ul>,Alt<1ul>,Alt<4294967301ul>,Alt<12ul>,Alt<90ul>,Alt<0ul>,Alt<7ul>,Alt<255ul>,Alt<256ul>,Alt<2ul>,Alt<66ul>,Alt<1099511627776ul>,Alt<8ul>>;
void vf_accept_15(E* at, size_t code, Vis& v) { V15 x(code); new (at) E(x.accept(v)); }
void vf_note_15(size_t code, Note& v) { V15 x(code); x.accept(v); }
size_t vf_built_15() { V15 x{Alt<8ul>()}; return x.code(); }
using V16 = CodedVariant<size_t,Alt<37ul>,Alt<5ul>,Alt<300ul>,Alt<1ul>,Alt<4294967301ul>,Alt<12ul>,Alt<90ul>,Alt<0ul>,Alt<7ul>,Alt<255ul>,Alt<256ul>,Alt<2ul>,Alt<66ul>,Alt<1099511627776ul>,Alt<8ul>,Alt<13ul>>;
void vf_accept_16(E* at, size_t code, Vis& v) { V16 x(code); new (at) E(x.accept(v)); }
void vf_note_16(size_t code, Note& v) { V16 x(code); x.accept(v); }
long* vf_ref_16(size_t code, Ref& v) { V16 x(code); return &x.accept(v); }
size_t vf_built_16() { V16 x{Alt<13ul>()}; return x.code(); }
void vf_note_0(size_t code, Note& v) { CodedVariant<size_t> x(code); x.accept(v); }
using VE = CodedVariant<En,Ealt<En::A>,Ealt<En::B>,Ealt<En::C>,Ealt<En::D>>;
void vf_accept_en(E* at, int code, EVis& v) { VE x((En)code); new (at) E(x.accept(v)); }
size_t vf_code(size_t code) { return V16(code).code(); }
size_t vf_copy(size_t code) { V16 x(code); V16 y(x); V16 z(size_t(0)); z=y; return z.code(); }
bool vf_holds_0(size_t code) { return holds_alternative<Alt<37ul>>(V16(code)); }
bool vf_holds_1(size_t code) { return holds_alternative<Alt<5ul>>(V16(code)); }
bool vf_holds_2(size_t code) { return holds_alternative<Alt<300ul>>(V16(code)); }
bool vf_holds_3(size_t code) { return holds_alternative<Alt<1ul>>(V16(code)); }
bool vf_holds_4(size_t code) { return holds_alternative<Alt<4294967301ul>>(V16(code)); }
bool vf_holds_5(size_t code) { return holds_alternative<Alt<12ul>>(V16(code)); }
bool vf_holds_6(size_t code) { return holds_alternative<Alt<90ul>>(V16(code)); }
bool vf_holds_7(size_t code) { return holds_alternative<Alt<0ul>>(V16(code)); }
bool vf_holds_8(size_t code) { return holds_alternative<Alt<7ul>>(V16(code)); }
bool vf_holds_9(size_t code) { return holds_alternative<Alt<255ul>>(V16(code)); }
bool vf_holds_10(size_t code) { return holds_alternative<Alt<256ul>>(V16(code)); }
bool vf_holds_11(size_t code) { return holds_alternative<Alt<2ul>>(V16(code)); }
bool vf_holds_12(size_t code) { return holds_alternative<Alt<66ul>>(V16(code)); }
bool vf_holds_13(size_t code) { return holds_alternative<Alt<1099511627776ul>>(V16(code)); }
bool vf_holds_14(size_t code) { return holds_alternative<Alt<8ul>>(V16(code)); }
bool vf_holds_15(size_t code) { return holds_alternative<Alt<13ul>>(V16(code)); }
bool vf_holds_absent(size_t code) { return holds_alternative<Alt<999ul>>(V4(code)); }
}
