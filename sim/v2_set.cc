// compiled once per generated template set with SET_NS / SET_IDX / SET_HDR,
// and for the sets without codecs with SET_TYPES_ONLY
#include SET_HDR
#include "session.h"
#ifndef SET_TYPES_ONLY
#include "mfast/coder/fast_decoder_v2.h"
#include "mfast/coder/fast_encoder_v2.h"
#endif
namespace {
using namespace sim;
typedef SET_NS::templates_description Desc;
#ifndef SET_TYPES_ONLY
struct E2 : EncoderIf {
  mfast::fast_encoder_v2 e;
  E2(mfast::allocator *a) : e(a, Desc::instance()) { name = "v2-encoder"; }
  size_t encode(const mfast::message_cref &m, char *b, size_t n, bool r) override { return e.encode(m, b, n, r); }
  void encode(const mfast::message_cref &m, std::vector<char> &b, bool r) override { e.encode(m, b, r); }
  void allow_overlong(bool v) override { e.allow_overlong_pmap(v); }
};
struct D0 : DecoderIf {
  mfast::fast_decoder_v2<0> d;
  D0(mfast::allocator *a) : d(a, Desc::instance()) { name = "v2-decoder<0>"; }
  mfast::message_cref decode(const char *&f, const char *l, bool r, unsigned) override { return d.decode(f, l, r); }
};
struct D1 : DecoderIf {
  mfast::fast_decoder_v2<1> d;
  D1(mfast::allocator *a) : d(a, Desc::instance()) { name = "v2-decoder<1>"; }
  mfast::message_cref decode(const char *&f, const char *l, bool r, unsigned) override { return d.decode(0, f, l, r); }
  mfast::message_mref decode_m(const char *&f, const char *l, bool r, unsigned) override { return d.decode(0, f, l, r); }
  unsigned tokens() const override { return 1; }
};
struct D3 : DecoderIf {
  mfast::fast_decoder_v2<3> d;
  D3(mfast::allocator *a) : d(a, Desc::instance()) { name = "v2-decoder<3>"; }
  mfast::message_cref decode(const char *&f, const char *l, bool r, unsigned t) override { return d.decode(t % 3, f, l, r); }
  mfast::message_mref decode_m(const char *&f, const char *l, bool r, unsigned t) override { return d.decode(t % 3, f, l, r); }
  unsigned tokens() const override { return 3; }
};
#endif
template <class V> void show_view(const V &v, std::vector<mfast::field_cref> &shown) {
  for (auto i = v.begin(); i != v.end(); ++i) { shown.push_back(*i); if (shown.size() > 1000) break; }
}
void view(int idx, const mfast::message_cref &m, std::vector<mfast::field_cref> &shown) {
  switch (idx) {
#define VIEW(I, V, T) case I: { SET_NS::T##_cref r(m); show_view(SET_NS::V(r), shown); break; }
#include SET_VIEWS
#undef VIEW
  }
}
template <class R> const void *storage(const R &r) { return Acc::at(r); }
template <class U> TypeUse use() {
  typedef typename U::type T;
  return TypeUse{T::instruction(), (uint32_t)T::the_id, &U::walk, &U::set, &U::omit,
                 [](const mfast::message_cref &m, mfast::allocator *a, const std::function<void(const mfast::message_cref &, const mfast::message_mref &)> &f) {
                   T copy(typename U::cref(m), a);
                   f(copy.cref(), copy.mref());
                 }};
}
#include SET_ACC
std::vector<TypeUse> uses() { std::vector<TypeUse> u; fill_uses(u); return u; }
RegisterTypes types(TypeSet{SET_IDX, Desc::instance(), view, uses()});
#ifndef SET_TYPES_ONLY
RegisterSet reg(GenSet{SET_IDX, Desc::instance(),
                       [](mfast::allocator *a) { return std::unique_ptr<EncoderIf>(new E2(a)); },
                       [](unsigned n, mfast::allocator *a) {
                         if (n == 0) return std::unique_ptr<DecoderIf>(new D0(a));
                         if (n == 1) return std::unique_ptr<DecoderIf>(new D1(a));
                         return std::unique_ptr<DecoderIf>(new D3(a));
                       }, view});
#endif
} // namespace
