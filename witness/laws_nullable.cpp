// C16: a nullable is its value and a flag, whatever they are held by; null equals null only and comes before every value.
#include "arrow_model.hpp"
using namespace sparrow;
using fmt::i32;
using fmt::i64;

namespace
{
    bool both(bool a, bool b, bool c) { return a == b && b == c; }
}

void law_C16_default()
{
    const nullable<i32> n;
    const nullable<i32> m(nullval);
    law::prove("null", !n.has_value() && !m.has_value() && !n && !m);
    law::prove("equals null", n == nullval && m == nullval && n == m);
}
void law_C16_from_value(i32 v)
{
    const nullable<i32> n(v);
    const nullable<i64> w(n);
    const nullable<i32> x = v;
    law::prove("has a value", n.has_value() && w.has_value() && x.has_value());
    law::prove("value", n.get() == v && n.value() == v && w.get() == v && x.get() == v);
    law::total("no failure");
}
void law_C16_value_and_flag(i32 v, bool f)
{
    nullable<i32> n(std::move(v), bool(f));
    law::prove("flag", both(n.has_value(), static_cast<bool>(n), f) && n.null_flag() == f);
    law::prove("value", n.get() == v);
    auto m = make_nullable(i32{v}, bool{f});
    law::prove("made", m.get() == v && m.has_value() == f);
}
void law_C16_value_of_null(i32 v)
{
    const nullable<i32> n(i32(v), false);
    (void) n.value();
    law::unreachable("refused");
}
void law_C16_value_of_null_mutable(i32 v)
{
    nullable<i32> n(i32(v), false);
    (void) n.value();
    law::unreachable("refused");
}
void law_C16_value_of_null_rvalue(i32 v)
{
    (void) nullable<i32>(i32(v), false).value();
    law::unreachable("refused");
}
void law_C16_value_of_null_reference(i32& v, bool& f)
{
    law::require(!f);
    const nullable<i32&, bool&> n(v, f);
    (void) n.value();
    law::unreachable("refused");
}
void law_C16_value_of_valid(i32 v)
{
    nullable<i32> n(i32(v), true);
    const auto& c = n;
    law::prove("same object", &n.value() == &n.get() && &c.value() == &c.get() && &c.get() == &n.get());
    law::prove("value", n.value() == v && std::move(n).value() == v);
    law::total("no failure");
}
void law_C16_value_or(i32 v, i32 w, bool f)
{
    const nullable<i32> n(i32{v}, bool{f});
    law::prove("const", n.value_or(w) == (f ? v : w));
    law::prove("rvalue", nullable<i32>(i32{v}, bool{f}).value_or(w) == (f ? v : w));
    law::total("no failure");
}
void law_C16_copied(i32 v, bool f)
{
    const nullable<i32> n(i32{v}, bool{f});
    const nullable<i32> m(n);
    nullable<i32> a(1);
    a = n;
    nullable<i32> b;
    b = nullable<i32>(n);
    nullable<i64> c;
    c = n;
    nullable<i64> d(n);
    law::prove("copy", m.get() == v && m.has_value() == f);
    law::prove("copy assigned", a.get() == v && a.has_value() == f);
    law::prove("move assigned", b.get() == v && b.has_value() == f);
    law::prove("converted", c.get() == v && c.has_value() == f && d.get() == v && d.has_value() == f);
}
void law_C16_assigned_value(i32 v, i32 w, bool f)
{
    nullable<i32> n(i32{v}, bool{f});
    n = w;
    law::prove("value", n.has_value() && n.get() == w);
    n = nullval;
    law::prove("null", !n.has_value() && n.get() == w);
    n.reset();
    law::prove("reset", !n.has_value());
    n = v;
    n.reset();
    law::prove("reset of a value", !n.has_value());
}
// through references
void law_C16_reference(i32& v, bool& f, i32 w)
{
    const bool f0 = f;
    const i32 v0 = v;
    nullable<i32&, bool&> n(v, f);
    law::prove("refers", &n.get() == &v && n.has_value() == f0 && &n.null_flag() == &f);
    nullable<i32&, bool&> m(n);
    law::prove("copies refer", &m.get() == &v);
    n = w;
    law::prove("assigns the value", v == w && f);
    n = nullval;
    law::prove("assigns null", !f && v == w);
    n = nullable<i32>(i32(v0), true);
    law::prove("assigns a nullable", f && v == v0);
    n = nullable<i32>();
    law::prove("assigns a null nullable", !f);
}
void law_C16_reference_assigned(i32* p, bool* f)
{
    law::require(p != nullptr && f != nullptr);
    const i32 w = p[1];
    const bool g = f[1];
    nullable<i32&, bool&> n(p[0], f[0]);
    const nullable<i32&, bool&> m(p[1], f[1]);
    n = m;
    law::prove("assigns through", p[0] == w && f[0] == g);
    law::prove("source kept", p[1] == w && f[1] == g);
    law::prove("still refers", &n.get() == &p[0]);
}
void law_C16_owned_flag(i32& v, i32 w)
{
    nullable<i32&> n(v);
    law::prove("valid", n.has_value());
    n = nullval;
    law::prove("null", !n.has_value());
    n = w;
    law::prove("assigned", n.has_value() && v == w);
}
void law_C16_swapped(i32 v, bool f, i32 w, bool g)
{
    nullable<i32> a(i32{v}, bool{f}), b(i32{w}, bool{g});
    swap(a, b);
    law::prove("free", a.get() == w && a.has_value() == g && b.get() == v && b.has_value() == f);
    a.swap(b);
    law::prove("member", a.get() == v && a.has_value() == f && b.get() == w && b.has_value() == g);
}
void law_C16_swapped_references(i32* p, bool* f)
{
    law::require(p != nullptr && f != nullptr);
    const i32 v = p[0], w = p[1];
    const bool a = f[0], b = f[1];
    nullable<i32&, bool&> n(p[0], f[0]), m(p[1], f[1]);
    swap(n, m);
    law::prove("values", p[0] == w && p[1] == v);
    law::prove("flags", f[0] == b && f[1] == a);
}
void law_C16_equality(i32 v, bool f, i32 w, bool g)
{
    const nullable<i32> a(i32{v}, bool{f}), b(i32{w}, bool{g});
    law::prove("equal", (a == b) == (f ? g && v == w : !g));
    law::prove("different", (a != b) == !(a == b));
    law::prove("symmetric", (a == b) == (b == a));
    law::prove("to a value", (a == w) == (f && v == w));
    law::prove("to null", (a == nullval) == !f && (a != nullval) == f);
}
void law_C16_equality_of_references(i32& v, bool& f, i32 w, bool g)
{
    const nullable<i32&, bool&> a(v, f);
    const nullable<i32> b(i32{w}, bool{g});
    law::prove("equal", (a == b) == (f ? g && v == w : !g));
    law::prove("symmetric", (a == b) == (b == a));
}
void law_C16_order(i32 v, bool f, i32 w, bool g)
{
    const nullable<i32> a(i32{v}, bool{f}), b(i32{w}, bool{g});
    law::prove("less", (a < b) == (g && (!f || v < w)));
    law::prove("greater", (a > b) == (f && (!g || v > w)));
    law::prove("not greater", (a <= b) == !(a > b));
    law::prove("not less", (a >= b) == !(a < b));
    law::prove("antisymmetric", (a < b) == (b > a));
    law::prove("equivalent when equal", ((a <=> b) == 0) == (a == b));
}
void law_C16_order_to_value(i32 v, bool f, i32 w)
{
    const nullable<i32> a(i32{v}, bool{f});
    law::prove("less", (a < w) == (!f || v < w));
    law::prove("greater", (a > w) == (f && v > w));
    law::prove("equivalent when equal", ((a <=> w) == 0) == (a == w));
}
void law_C16_order_to_null(i32 v, bool f)
{
    const nullable<i32> a(i32{v}, bool{f});
    law::prove("equivalent when null", ((a <=> nullval) == 0) == !f);
    law::prove("greater when not", (a > nullval) == f);
    law::prove("never less", !(a < nullval));
}
void law_C16_variant(i32 v, bool f, bool which)
{
    using var = nullable_variant<nullable<i32>, nullable<double>>;
    const var a = which ? var(nullable<i32>(i32{v}, bool{f})) : var(nullable<double>(double(v), bool{f}));
    law::prove("has a value", both(a.has_value(), static_cast<bool>(a), f));
    var b(a);
    law::prove("copy", b.has_value() == f && b.index() == a.index());
    var c;
    c = a;
    law::prove("copy assigned", c.has_value() == f && c.index() == a.index());
    var d;
    d = std::move(b);
    law::prove("move assigned", d.has_value() == f && d.index() == a.index());
    if (which)
        law::prove("value", std::get<nullable<i32>>(d).get() == v);
}
