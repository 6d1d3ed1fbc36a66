// multi_type_matrix under simulated histories and faults, compared with a plain grid of cells.
#include "sim.hpp"
#include "tok.hpp"
#include <mdds/multi_type_matrix.hpp>
#include <deque>
#include <algorithm>

namespace sim {
// stands for a string: owns memory, and its copies can fail
struct MTok : HeapTok {
    using HeapTok::HeapTok;
    friend bool operator==(const MTok& a, const MTok& b) { return (const HeapTok&)a == (const HeapTok&)b; }
};
constexpr int kTokType = mdds::mtv::element_type_user_start;
using MTokBlk = mdds::mtv::default_element_block<kTokType, MTok>;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(MTok, kTokType, MTok(), MTokBlk)
}
using namespace sim;
namespace hm {
namespace mtv = mdds::mtv;
namespace mtm = mdds::mtm;
enum Kind { kEmpty, kNum, kBool, kStr, kInt };
struct Cell {
    int k = kEmpty, v = 0;
    bool operator==(const Cell&) const = default;
};
struct StdT : mtm::std_string_traits {
    static std::string str(int v) { return "s" + std::to_string(v) + (v % 3 ? "" : "-longer-than-the-small-string-buffer"); }
    static int val(const std::string& s) { return s.size() < 2 ? -1 : atoi(s.c_str() + 1); }
};
struct TokT {
    using integer_element_block = mtv::int64_element_block;
    using string_element_block = MTokBlk;
    static MTok str(int v) { return MTok(v); }
    static int val(const MTok& t) { t.alive("read"); return t.v; }
};
struct StringViewT {   // a user-defined string block over std::string, unsigned integers
    using integer_element_block = mtv::uint16_element_block;
    using string_element_block = mtv::string_element_block;
    static std::string str(int v) { return StdT::str(v); }
    static int val(const std::string& s) { return StdT::val(s); }
};

template<typename T> struct World {
    using M = mdds::multi_type_matrix<T>;
    using Str = typename M::string_type;
    using Int = typename M::integer_type;
    using SP = typename M::size_pair_type;
    using Node = typename M::element_block_node_type;
    using Pos = typename M::position_type;
    using CPos = typename M::const_position_type;
    struct Slot {
        std::unique_ptr<M> p;
        size_t r = 0, c = 0;
        std::vector<Cell> m;
        bool moved = false;
        Cell& at(size_t row, size_t col) { return m[col * r + row]; }
    };
    std::vector<Slot> s;
    bool faults = false;
    size_t maxdim = 6;
    int nvals = 4;

    static double num(int v) { return v * 0.5; }
    static bool boo(int v) { return v & 1; }
    static Int integer(int v) { return (Int)(v * 3 + 1); }
    static int norm(int k, int v) { return k == kBool ? (v & 1) : k == kEmpty ? 0 : v; }
    static mtm::element_t type_of(int k)
    {
        return k == kEmpty ? mtm::element_empty : k == kNum ? mtm::element_numeric : k == kBool ? mtm::element_boolean : k == kStr ? mtm::element_string : mtm::element_integer;
    }
    static double numeric_of(const Cell& c)
    {
        return c.k == kNum ? num(c.v) : c.k == kBool ? (double)boo(c.v) : c.k == kInt ? (double)integer(c.v) : 0.0;
    }
    int value() { return (int)choose((uint32_t)nvals); }
    int kind() { return 1 + (int)weighted({3, 2, 3, 3}); }

    // ------------------------------------------------------------ reading
    static void read_node(const Node& n, std::vector<Cell>& out)
    {
        SIM_CHECK(n.size > 0, "mtm:walk", "a walk visits a section of size zero");
        SIM_CHECK((n.data == nullptr) == (n.type == mtm::element_empty), "mtm:walk", "a walked section has data and is empty, or neither");
        size_t before = out.size();
        switch (n.type)
        {
            case mtm::element_empty: out.resize(out.size() + n.size); break;
            case mtm::element_numeric:
                for (auto it = n.template begin<typename M::numeric_block_type>(), e = n.template end<typename M::numeric_block_type>(); it != e; ++it)
                    out.push_back({kNum, (int)(*it * 2)});
                break;
            case mtm::element_boolean:
                for (auto it = n.template begin<typename M::boolean_block_type>(), e = n.template end<typename M::boolean_block_type>(); it != e; ++it)
                    out.push_back({kBool, *it});
                break;
            case mtm::element_string:
                for (auto it = n.template begin<typename M::string_block_type>(), e = n.template end<typename M::string_block_type>(); it != e; ++it)
                    out.push_back({kStr, T::val(*it)});
                break;
            case mtm::element_integer:
                for (auto it = n.template begin<typename M::integer_block_type>(), e = n.template end<typename M::integer_block_type>(); it != e; ++it)
                    out.push_back({kInt, ((int)*it - 1) / 3});
                break;
            default: fail("mtm:walk", "a walk visits a section of type %d", (int)n.type);
        }
        SIM_CHECK(out.size() - before == n.size, "mtm:walk", "a section of size %zu has %zu elements", (size_t)n.size, out.size() - before);
    }
    static std::string show(const Cell& c)
    {
        static const char* n[] = {"empty", "number", "boolean", "string", "integer"};
        return std::string(n[c.k]) + " " + std::to_string(c.v);
    }
    static void compare(const std::vector<Cell>& got, const std::vector<Cell>& want, const char* what)
    {
        SIM_CHECK(got.size() == want.size(), "mtm:content", "%s: %zu cells, expected %zu", what, got.size(), want.size());
        for (size_t i = 0; i < got.size(); ++i)
            if (!(got[i] == want[i]))
                fail("mtm:content", "%s: cell number %zu is %s, expected %s", what, i, show(got[i]).c_str(), show(want[i]).c_str());
    }
    Cell read_cell(const M& m, const CPos& p)
    {
        auto t = m.get_type(p);
        for (int k = 0; k <= kInt; ++k)
            if (type_of(k) == t)
                switch (k)
                {
                    case kEmpty: return {};
                    case kNum: return {kNum, (int)(m.get_numeric(p) * 2)};
                    case kBool: return {kBool, m.get_boolean(p)};
                    case kStr: return {kStr, T::val(m.get_string(p))};
                    default: return {kInt, ((int)m.get_integer(p) - 1) / 3};
                }
        fail("mtm:type", "a cell of type %d", (int)t);
    }
    void expect(Slot& x, bool deep)
    {
        const M& m = *x.p;
        SIM_CHECK(m.size().row == x.r && m.size().column == x.c, "mtm:size", "size is %zux%zu, expected %zux%zu", m.size().row, m.size().column, x.r, x.c);
        SIM_CHECK(m.empty() == x.m.empty(), "mtm:empty", "empty()=%d for %zu cells", m.empty(), x.m.size());
        std::vector<Cell> got;
        size_t sections = 0;
        m.walk([&](const Node& n) {
            SIM_CHECK(n.offset == 0, "mtm:walk", "a walk over the whole matrix starts a block at offset %zu", (size_t)n.offset);
            read_node(n, got);
            ++sections;
        });
        compare(got, x.m, "walk");
        bool allnum = !x.m.empty() && std::all_of(x.m.begin(), x.m.end(), [](const Cell& c) { return c.k == kNum || c.k == kBool || c.k == kInt; });
        SIM_CHECK(m.numeric() == allnum, "mtm:numeric", "numeric()=%d", m.numeric());
        uint64_t h = x.r * 64 + x.c;
        for (auto& c : x.m) h = mix(h, c.k * 64 + c.v);
        state(h);
        if (sections > 3) nontrivial();
        if (!deep || x.m.empty())
            return;
        auto walkp = m.position(0, 0);
        auto hint = m.position(choose((uint32_t)x.r), choose((uint32_t)x.c));
        for (size_t col = 0; col < x.c; ++col)
            for (size_t row = 0; row < x.r; ++row)
            {
                const Cell& c = x.at(row, col);
                SIM_CHECK(m.get_type(row, col) == type_of(c.k), "mtm:type", "type of (%zu,%zu) is %d, expected %d", row, col, (int)m.get_type(row, col), (int)type_of(c.k));
                auto p = m.position(row, col);
                auto p2 = m.position(hint, row, col);
                SIM_CHECK(p == p2 && p == walkp, "mtm:position", "position(%zu,%zu), with a hint, and by walking differ", row, col);
                auto mp = m.matrix_position(p);
                SIM_CHECK(mp.row == row && mp.column == col, "mtm:position", "matrix_position of (%zu,%zu) is (%zu,%zu)", row, col, mp.row, mp.column);
                SIM_CHECK(read_cell(m, p) == c, "mtm:content", "cell (%zu,%zu) read by position is %s, expected %s", row, col, show(read_cell(m, p)).c_str(), show(c).c_str());
                double d = numeric_of(c);
                SIM_CHECK(m.get_numeric(row, col) == d && m.get_numeric(p) == d, "mtm:get_numeric", "get_numeric(%zu,%zu) is %g, expected %g", row, col, m.get_numeric(row, col), d);
                SIM_CHECK(m.get_integer(row, col) == (Int)d && m.get_integer(p) == (Int)d, "mtm:get_integer", "get_integer(%zu,%zu) wrong", row, col);
                SIM_CHECK(m.get_boolean(row, col) == (d != 0) && m.get_boolean(p) == (d != 0), "mtm:get_boolean", "get_boolean(%zu,%zu) wrong", row, col);
                switch (c.k)
                {
                    case kNum: SIM_CHECK(m.template get<double>(row, col) == num(c.v), "mtm:get", "get<double>(%zu,%zu) wrong", row, col); break;
                    case kBool: SIM_CHECK(m.template get<bool>(row, col) == boo(c.v), "mtm:get", "get<bool>(%zu,%zu) wrong", row, col); break;
                    case kInt: SIM_CHECK(m.template get<Int>(row, col) == integer(c.v), "mtm:get", "get<integer>(%zu,%zu) wrong", row, col); break;
                    case kStr:
                        SIM_CHECK(T::val(m.template get<Str>(row, col)) == c.v && T::val(m.get_string(row, col)) == c.v, "mtm:get", "get<string>(%zu,%zu) wrong", row, col);
                        break;
                    default: break;
                }
                walkp = M::next_position(walkp);
            }
        SIM_CHECK(walkp == m.end_position(), "mtm:position", "walking by next_position does not arrive at end_position");
        {
            auto q = x.p->position(0, 0);
            auto hq = x.p->position(choose((uint32_t)x.r), choose((uint32_t)x.c));
            for (size_t col = 0; col < x.c; ++col)
                for (size_t row = 0; row < x.r; ++row, q = M::next_position(q))
                    SIM_CHECK(q == x.p->position(row, col) && q == x.p->position(hq, row, col), "mtm:position", "mutable position(%zu,%zu) and walking differ", row, col);
            SIM_CHECK(q == x.p->end_position(), "mtm:position", "walking by mutable next_position does not arrive at end_position");
        }
        op_walk_part(x);
    }
    // ------------------------------------------------------------ running
    template<typename F> void act(const char* what, F op)
    {
        Sut in;
        try { op(); }
        catch (const std::exception& e) { fail("mtm:unexpected-throw", "%s threw: %s", what, e.what()); }
    }
    template<typename E, typename F> void reject(const char* what, F op)
    {
        count("rejected_requests");
        bool ok = false;
        {
            Sut in;
            try { op(); }
            catch (const E&) { ok = true; }
            catch (const std::exception& e) { fail("mtm:wrong-throw", "%s threw the wrong exception: %s", what, e.what()); }
        }
        SIM_CHECK(ok, "mtm:not-rejected", "%s that does not fit was not rejected", what);
    }
    // An operation that may be failed by a fault; true if it succeeded.
    template<typename F> bool risky(const char* what, F op)
    {
        FaultPlan p = faults ? choose_faults(3, 4, true, true, 40) : FaultPlan{};
        bool ok = true;
        {
            Sut in(p);
            try { op(); }
            catch (const std::bad_alloc&) { ok = false; }
            catch (const Injected&) { ok = false; }
            catch (const std::exception& e) { fail("mtm:unexpected-throw", "%s threw: %s", what, e.what()); }
            SIM_CHECK(ok || in.fired(), "mtm:unexpected-throw", "%s threw although nothing failed", what);
        }
        if (!ok)
        {
            if (faults) nontrivial();
            count("operations_failed_by_fault");
            note("  -> failed");
        }
        return ok;
    }
    // f(value of the right type)
    template<typename F> void typed(int k, int v, F f)
    {
        switch (k)
        {
            case kNum: f(num(v)); break;
            case kBool: f(boo(v)); break;
            case kInt: f(integer(v)); break;
            default:
            {
                Str x = T::str(v);
                f((const Str&)x);
            }
        }
    }
    // f(begin, end) over a sequence of the right type
    template<typename F> void seq(int k, const std::vector<int>& vs, F f)
    {
        switch (k)
        {
            case kNum: { std::deque<double> q; for (int v : vs) q.push_back(num(v)); f(q.begin(), q.end()); break; }
            case kBool: { std::deque<bool> q; for (int v : vs) q.push_back(boo(v)); f(q.begin(), q.end()); break; }
            case kInt: { std::vector<Int> q; for (int v : vs) q.push_back(integer(v)); f(q.begin(), q.end()); break; }
            default: { std::deque<Str> q; for (int v : vs) q.push_back(T::str(v)); f(q.begin(), q.end()); break; }
        }
    }
    std::vector<int> vals(size_t n)
    {
        std::vector<int> r(n);
        if (chance(1, 3))
        {
            int v = value();
            for (auto& x : r) x = v;
        }
        else
            for (auto& x : r) x = value();
        return r;
    }
    // ------------------------------------------------------------ operations
    void op_set(Slot& x)
    {
        size_t row = choose((uint32_t)x.r), col = choose((uint32_t)x.c);
        int k = kind(), v = norm(k, value());
        uint32_t n = chance(1, 3) ? 1 + choose(6) : 1;
        if (chance(1, 2))
        {
            note("set (%zu,%zu) %s, %u times downward", row, col, show({k, v}).c_str(), n);
            for (size_t pos = col * x.r + row; n-- && pos < x.m.size(); ++pos)
            {
                x.m[pos] = {k, v};
                act("set", [&] { typed(k, v, [&](const auto& val) { x.p->set(pos % x.r, pos / x.r, val); }); });
            }
            return;
        }
        note("set by position (%zu,%zu) %s, %u times downward", row, col, show({k, v}).c_str(), n);
        Pos p = chance(1, 2) ? x.p->position(row, col) : x.p->position(x.p->position(choose((uint32_t)x.r), choose((uint32_t)x.c)), row, col);
        for (size_t pos = col * x.r + row; n-- && pos < x.m.size(); ++pos)
        {
            x.m[pos] = {k, v};
            act("set", [&] { typed(k, v, [&](const auto& val) { p = x.p->set(p, val); }); });
            check_pos(x, p, pos, "set");
            p = M::next_position(p);
        }
    }
    void check_pos(Slot& x, const Pos& p, size_t pos, const char* what)
    {
        auto mp = x.p->matrix_position(p);
        SIM_CHECK(mp.column * x.r + mp.row == pos, "mtm:returned", "%s returned a position of cell number %zu, expected %zu", what, mp.column * x.r + mp.row, pos);
        SIM_CHECK(p == x.p->position(mp.row, mp.column), "mtm:returned", "%s returned a position that differs from the one looked up", what);
    }
    void op_set_empty(Slot& x)
    {
        size_t row = choose((uint32_t)x.r), col = choose((uint32_t)x.c), at = col * x.r + row;
        switch (choose(5))
        {
            case 0:
                note("set_empty (%zu,%zu)", row, col);
                x.m[at] = {};
                act("set_empty", [&] { x.p->set_empty(row, col); });
                break;
            case 1:
            {
                note("set_empty by position (%zu,%zu)", row, col);
                x.m[at] = {};
                Pos p = x.p->position(row, col);
                act("set_empty", [&] { p = x.p->set_empty(p); });
                check_pos(x, p, at, "set_empty");
                break;
            }
            case 2:
            {
                size_t n = 1 + choose((uint32_t)(x.m.size() - at));
                note("set_empty (%zu,%zu) length %zu", row, col, n);
                for (size_t i = 0; i < n; ++i) x.m[at + i] = {};
                act("set_empty", [&] { x.p->set_empty(row, col, n); });
                break;
            }
            case 3:
                note("set_column_empty %zu", col);
                for (size_t i = 0; i < x.r; ++i) x.at(i, col) = {};
                act("set_column_empty", [&] { x.p->set_column_empty(col); });
                break;
            default:
                note("set_row_empty %zu", row);
                for (size_t i = 0; i < x.c; ++i) x.at(row, i) = {};
                act("set_row_empty", [&] { x.p->set_row_empty(row); });
                break;
        }
    }
    void op_set_range(Slot& x)
    {
        size_t row = choose((uint32_t)x.r), col = choose((uint32_t)x.c), at = col * x.r + row;
        int k = kind();
        uint32_t how = choose(3);
        if (how == 2)
        {
            size_t n = choose((uint32_t)x.r + 3);
            auto vs = vals(n);
            note("set_column %zu, %zu values of kind %d", col, n, k);
            for (size_t i = 0; i < n && i < x.r; ++i) x.at(i, col) = {k, norm(k, vs[i])};
            act("set_column", [&] { seq(k, vs, [&](auto b, auto e) { x.p->set_column(col, b, e); }); });
            return;
        }
        size_t n = 1 + choose((uint32_t)std::min<size_t>(x.m.size() - at, chance(1, 2) ? 3 : 40));
        auto vs = vals(n);
        note("set%s (%zu,%zu) %zu values of kind %d", how ? " by position" : "", row, col, n, k);
        for (size_t i = 0; i < n; ++i) x.m[at + i] = {k, norm(k, vs[i])};
        if (!how)
            act("set range", [&] { seq(k, vs, [&](auto b, auto e) { x.p->set(row, col, b, e); }); });
        else
        {
            Pos p = x.p->position(row, col);
            act("set range", [&] { seq(k, vs, [&](auto b, auto e) { p = x.p->set(p, b, e); }); });
            check_pos(x, p, at, "set range");
        }
    }
    static void regrid(Slot& x, size_t r, size_t c, Cell fill)
    {
        std::vector<Cell> n(r * c, fill);
        for (size_t j = 0; j < std::min(c, x.c); ++j)
            for (size_t i = 0; i < std::min(r, x.r); ++i)
                n[j * r + i] = x.at(i, j);
        x.m = n, x.r = r, x.c = c;
    }
    void dims(size_t& r, size_t& c)
    {
        r = 1 + choose((uint32_t)maxdim), c = 1 + choose((uint32_t)maxdim);
        if (chance(1, 15)) (chance(1, 2) ? r : c) = 0;
    }
    void op_resize(Slot& x)
    {
        size_t r, c;
        dims(r, c);
        if (chance(1, 4) && x.r) r = x.r;
        if (chance(1, 4) && x.c) c = x.c;
        bool ok;
        Cell fill;
        if (chance(1, 2))
        {
            note("resize to %zux%zu", r, c);
            ok = risky("resize", [&] { x.p->resize(r, c); });
        }
        else
        {
            fill.k = kind(), fill.v = norm(fill.k, value());
            note("resize to %zux%zu filled with %s", r, c, show(fill).c_str());
            ok = risky("resize", [&] { typed(fill.k, fill.v, [&](const auto& v) { x.p->resize(r, c, v); }); });
        }
        if (ok)
        {
            if (!r || !c) r = c = 0;
            regrid(x, r, c, fill);
        }
    }
    void op_transpose(Slot& x)
    {
        note("transpose");
        M* ret = nullptr;
        if (!risky("transpose", [&] { ret = &x.p->transpose(); }))
            return;
        SIM_CHECK(ret == x.p.get(), "mtm:returned", "transpose() does not return the matrix");
        std::vector<Cell> n(x.m.size());
        for (size_t j = 0; j < x.c; ++j)
            for (size_t i = 0; i < x.r; ++i)
                n[i * x.c + j] = x.at(i, j);
        x.m = n;
        std::swap(x.r, x.c);
    }
    void op_copy_from(Slot& x, Slot& y, uint32_t yi)
    {
        if (y.moved) return;
        note("copy the cells of m%u", yi);
        act("copy", [&] { x.p->copy(*y.p); });
        if (x.m.empty() || y.m.empty()) return;
        for (size_t j = 0; j < std::min(x.c, y.c); ++j)
            for (size_t i = 0; i < std::min(x.r, y.r); ++i)
                x.at(i, j) = y.at(i, j);
    }
    void op_copy_array(Slot& x)
    {
        int k = kind();
        if (x.r * x.c == 0 || chance(1, 12))
        {
            // an array of no elements, or a matrix of none: nothing to copy
            size_t r = choose(3), c = choose(3);
            auto none = vals(x.r * x.c == 0 ? choose(3) : 0);
            note("copy an array of %zu elements as %zux%zu", none.size(), r, c);
            act("copy of nothing", [&] { seq(k, none, [&](auto b, auto e) { x.p->copy(r, c, b, e); }); });
            return;
        }
        size_t r = 1 + choose((uint32_t)x.r), c = 1 + choose((uint32_t)x.c);
        auto vs = vals(r * c);
        note("copy an array of %zux%zu of kind %d", r, c, k);
        for (size_t i = 0; i < vs.size(); ++i) x.at(i % r, i / r) = {k, norm(k, vs[i])};
        act("copy of an array", [&] { seq(k, vs, [&](auto b, auto e) { x.p->copy(r, c, b, e); }); });
    }
    void op_dup(Slot& x, Slot& y, uint32_t yi)
    {
        std::unique_ptr<M> n;
        bool assign = chance(1, 2);
        note(assign ? "assigned to m%u" : "copied into m%u", yi);
        if (!risky("copy", [&] { if (assign) *y.p = *x.p; else n.reset(new M(*x.p)); }))
            return;
        if (!assign)
        {
            Sut in;
            y.p = std::move(n);
        }
        if (&x != &y)
            y.m = x.m, y.r = x.r, y.c = x.c, y.moved = false;
    }
    void op_move(Slot& x, Slot& y, uint32_t yi)
    {
        if (&x == &y) return;
        bool assign = chance(1, 2);
        note(assign ? "move-assigned to m%u" : "moved into m%u", yi);
        Sut in;
        if (assign) *y.p = std::move(*x.p);
        else
        {
            std::unique_ptr<M> n(new M(std::move(*x.p)));
            y.p = std::move(n);
        }
        y.m = x.m, y.r = x.r, y.c = x.c, y.moved = false;
        x.moved = true;
    }
    void op_construct(Slot& x)
    {
        size_t r, c;
        dims(r, c);
        uint32_t how = choose(4);
        std::unique_ptr<M> n;
        std::vector<Cell> m(r * c);
        if (how == 0)
        {
            note("new %zux%zu", r, c);
            act("construction", [&] { n.reset(new M(r, c)); });
        }
        else if (how == 1)
        {
            int k = kind(), v = norm(k, value());
            note("new %zux%zu of %s", r, c, show({k, v}).c_str());
            m.assign(r * c, Cell{k, v});
            act("construction", [&] { typed(k, v, [&](const auto& val) { n.reset(new M(r, c, val)); }); });
        }
        else if (how == 2)
        {
            int k = kind();
            auto vs = vals(r * c);
            note("new %zux%zu from an array of kind %d", r, c, k);
            for (size_t i = 0; i < vs.size(); ++i) m[i] = {k, norm(k, vs[i])};
            act("construction", [&] { seq(k, vs, [&](auto b, auto e) { n.reset(new M(r, c, b, e)); }); });
        }
        else
        {
            note("new, empty");
            r = c = 0;
            m.clear();
            act("construction", [&] { n.reset(new M()); });
        }
        Sut in;
        x.p = std::move(n);
        Pause q;
        x.m = m, x.r = r, x.c = c, x.moved = false;
    }
    std::vector<Cell> part(Slot& x, size_t r0, size_t c0, size_t r1, size_t c1)
    {
        std::vector<Cell> w;
        for (size_t j = c0; j <= c1; ++j)
            for (size_t i = r0; i <= r1; ++i)
                w.push_back(x.at(i, j));
        return w;
    }
    void op_walk_part(Slot& x)
    {
        const M& m = *x.p;
        size_t r0 = choose((uint32_t)x.r), r1 = r0 + choose((uint32_t)(x.r - r0)), c0 = choose((uint32_t)x.c), c1 = c0 + choose((uint32_t)(x.c - c0));
        std::vector<Cell> got;
        size_t calls = 0;
        struct Fn {
            std::vector<Cell>* out;
            size_t n;
            void operator()(const Node& nd) { read_node(nd, *out); ++n; }
        };
        Fn f = m.walk(Fn{&got, 0}, SP(r0, c0), SP(r1, c1));
        (void)calls;
        char b[120];
        snprintf(b, sizeof b, "walk over (%zu,%zu)-(%zu,%zu)", r0, c0, r1, c1);
        compare(got, part(x, r0, c0, r1, c1), b);
        SIM_CHECK(f.n > 0 && f.n <= got.size(), "mtm:walk-function", "the function returned from a walk has lost its state");
        for (size_t i = 0; i < s.size(); ++i)
        {
            Slot& y = s[i];
            if (y.moved) continue;
            if (y.r == x.r && y.c == x.c)
            {
                std::vector<Cell> a, bb;
                m.walk([&](const Node& n1, const Node& n2) {
                    SIM_CHECK(n1.size == n2.size, "mtm:walk2", "a walk over two matrices gives sections of different sizes");
                    read_node(n1, a), read_node(n2, bb);
                }, *y.p);
                compare(a, x.m, "walk over two matrices, left");
                compare(bb, y.m, "walk over two matrices, right");
                count("walks_over_two");
            }
            if (r1 < y.r && c1 < y.c)
            {
                std::vector<Cell> a, bb;
                m.walk([&](const Node& n1, const Node& n2) {
                    SIM_CHECK(n1.size == n2.size, "mtm:walk2", "a walk over parts of two matrices gives sections of different sizes");
                    read_node(n1, a), read_node(n2, bb);
                }, *y.p, SP(r0, c0), SP(r1, c1));
                compare(a, part(x, r0, c0, r1, c1), "walk over parts of two matrices, left");
                compare(bb, part(y, r0, c0, r1, c1), "walk over parts of two matrices, right");
                count("walks_over_parts_of_two");
            }
        }
    }
    void op_equal(Slot& x, Slot& y)
    {
        if (y.moved) return;
        bool want = x.r == y.r && x.c == y.c && x.m == y.m;
        SIM_CHECK((*x.p == *y.p) == want, "mtm:equality", "operator== gives %d, expected %d", *x.p == *y.p, want);
    }
    void op_reject(Slot& x, Slot& y)
    {
        size_t n = x.m.size();
        uint32_t what = choose(14);
        int k = kind();
        note("bad request %u", what);
        using OOR = std::out_of_range;
        auto vs = vals(n + 1 + choose(3));
        size_t far = chance(1, 4) ? 1000000 : x.c + choose(2);
        switch (what)
        {
            case 0: reject<OOR>("set", [&] { typed(k, 1, [&](const auto& v) { x.p->set(0, far, v); }); }); break;
            case 1: reject<OOR>("set range", [&] { seq(k, vs, [&](auto b, auto e) { x.p->set(0, 0, b, e); }); }); break;
            case 2: reject<OOR>("set_empty", [&] { x.p->set_empty(0, far); }); break;
            case 3: if (n) reject<OOR>("set_empty", [&] { x.p->set_empty(0, 0, n + 1 + choose(2)); }); break;
            case 4: if (n) reject<mdds::general_error>("set_empty of nothing", [&] { x.p->set_empty(0, 0, 0); }); break;
            case 5: if (n) reject<OOR>("set_column", [&] { seq(k, std::vector<int>(x.r, 1), [&](auto b, auto e) { x.p->set_column(far, b, e); }); }); break;
            case 6:
                if (!n) break;
                reject<mdds::size_error>("copy of an array", [&] { seq(k, vs, [&](auto b, auto e) { x.p->copy(x.r, x.c, b, e); }); });
                reject<mdds::size_error>("copy of an array", [&] {
                    bool tall = chance(1, 2);
                    size_t r = tall ? x.r + 1 : 1, c = tall ? 1 : x.c + 1;
                    seq(k, std::vector<int>(r * c, 1), [&](auto b, auto e) { x.p->copy(r, c, b, e); });
                });
                break;
            case 7:
            {
                std::vector<int8_t> odd(n, 3);
                if (!n) break;
                reject<mdds::type_error>("copy of an array of an unsupported type", [&] { x.p->copy(x.r, x.c, odd.begin(), odd.end()); });
                reject<mdds::type_error>("construction from an array of an unsupported type", [&] { M t(x.r, x.c, odd.begin(), odd.end()); });
                break;
            }
            case 8: reject<mdds::invalid_arg_error>("construction from an array of another length", [&] { seq(k, vs, [&](auto b, auto e) { M t(n + 5, 1, b, e); }); }); break;
            case 9: case 10:
            {
                auto nop = [](const Node&) { fail("mtm:not-rejected", "a walk over a part outside the matrix visits something"); };
                auto nop2 = [](const Node&, const Node&) { fail("mtm:not-rejected", "a walk over a part outside the matrix visits something"); };
                bool tall = chance(1, 2);
                SP end(tall ? x.r + choose(2) : (x.r ? x.r - 1 : 0), tall ? (x.c ? x.c - 1 : 0) : x.c + choose(2));
                SP start(choose((uint32_t)end.row + 1), choose((uint32_t)end.column + 1));
                const M& m = *x.p;
                reject<mdds::size_error>("walk over a part", [&] { m.walk(nop, start, end); });
                if (!y.moved)
                {
                    reject<mdds::size_error>("walk over parts of two matrices", [&] { m.walk(nop2, *y.p, start, end); });
                    const M& my = *y.p;
                    reject<mdds::size_error>("walk over parts of two matrices", [&] { my.walk(nop2, *x.p, start, end); });
                }
                if (x.r > 1) reject<mdds::size_error>("walk from bottom to top", [&] { m.walk(nop, SP(x.r - 1, 0), SP(0, 0)); });
                if (x.c > 1) reject<mdds::size_error>("walk from right to left", [&] { m.walk(nop2, m, SP(0, x.c - 1), SP(0, 0)); });
                break;
            }
            case 11:
                if (!y.moved && (y.r != x.r || y.c != x.c))
                    reject<mdds::size_error>("walk over two matrices", [&] { x.p->walk([](const Node&, const Node&) {}, *y.p); });
                break;
            case 12:
                if (!n) break;
                for (size_t j = 0; j < x.c; ++j)
                    for (size_t i = 0; i < x.r; ++i)
                    {
                        int ck = x.at(i, j).k;
                        if (ck != kStr)
                            reject<mdds::general_error>("get_string of another type", [&] { (void)x.p->get_string(i, j); });
                        if (ck == kEmpty) continue;
                        if (ck != kStr) reject<mdds::general_error>("get as string of another type", [&] { (void)x.p->template get<Str>(i, j); });
                        if (ck != kNum) reject<mdds::general_error>("get as number of another type", [&] { (void)x.p->template get<double>(i, j); });
                        if (ck != kBool) reject<mdds::general_error>("get as boolean of another type", [&] { (void)x.p->template get<bool>(i, j); });
                        if (ck != kInt) reject<mdds::general_error>("get as integer of another type", [&] { (void)x.p->template get<Int>(i, j); });
                    }
                break;
            default:
                reject<mdds::invalid_arg_error>("a size of one number", [&] { SP p{(size_t)1}; });
                reject<mdds::invalid_arg_error>("a size of three numbers", [&] { SP p{(size_t)1, (size_t)2, (size_t)3}; });
                SIM_CHECK((SP{3, 4}.row == 3 && SP{3, 4}.column == 4), "mtm:size-pair", "a size given as a list is another size");
                reject<OOR>("get_type", [&] { x.p->get_type(0, far); });
                break;
        }
    }
    void run()
    {
        uint32_t big = choose(6);
        maxdim = big == 0 ? 12 : big < 3 ? 3 : 6;
        nvals = 1 + (int)choose(5);
        s.resize(1 + choose(3));
        for (auto& x : s)
        {
            Sut in;
            x.p.reset(new M());
        }
        for (auto& x : s)
            if (chance(3, 4)) op_construct(x);
        uint32_t len = 10 + choose(40);
        while (more(len))
        {
            uint32_t xi = choose((uint32_t)s.size()), yi = choose((uint32_t)s.size());
            Slot &x = s[xi], &y = s[yi];
            if (x.moved)
            {
                note("m%u: reused after a move", xi);
                if (chance(1, 2))
                {
                    act("clear", [&] { x.p->clear(); });
                    x.m.clear(), x.r = x.c = 0, x.moved = false;
                }
                else
                    op_construct(x);
                expect(x, true);
                continue;
            }
            note("m%u (%zux%zu):", xi, x.r, x.c);
            uint32_t op = faults ? weighted({14, 6, 8, 16, 14, 4, 3, 18, 3, 3, 1, 2, 10, 2}) : weighted({24, 9, 16, 10, 6, 8, 7, 4, 3, 3, 1, 4, 6, 3});
            bool none = x.m.empty();
            if (none && (op < 3 || (op == 6 && chance(1, 2)))) op = 3;
            switch (op)
            {
                case 0: op_set(x); break;
                case 1: op_set_empty(x); break;
                case 2: op_set_range(x); break;
                case 3: op_resize(x); break;
                case 4: op_transpose(x); break;
                case 5: op_copy_from(x, y, yi); break;
                case 6: op_copy_array(x); break;
                case 7: op_dup(x, y, yi); break;
                case 8: op_move(x, y, yi); break;
                case 9:
                    note("swap with m%u", yi);
                    if (y.moved) break;
                    act("swap", [&] { x.p->swap(*y.p); });
                    if (&x != &y) std::swap(x.m, y.m), std::swap(x.r, y.r), std::swap(x.c, y.c);
                    break;
                case 10:
                    note("clear");
                    act("clear", [&] { x.p->clear(); });
                    x.m.clear(), x.r = x.c = 0;
                    break;
                case 11: op_equal(x, y); break;
                case 12: op_reject(x, y); break;
                default: op_construct(x); break;
            }
            for (size_t i = 0; i < s.size(); ++i)
                if (!s[i].moved)
                    expect(s[i], i == xi && op != 11);
        }
        Sut in;
        s.clear();
    }
};
template<int N> void go(bool faults);
#if PART > 0
template<int N> struct Config;
template<> struct Config<0> { using W = World<StdT>; static constexpr const char* name = "standard"; };
template<> struct Config<1> { using W = World<StringViewT>; static constexpr const char* name = "unsigned integers"; };
template<> struct Config<2> { using W = World<TokT>; static constexpr const char* name = "own strings, 64-bit integers"; };
template<> void go<PART - 1>(bool faults)
{
    cmp_faults = false;
    using C = Config<PART - 1>;
    note("types %s", C::name);
    typename C::W w;
    w.faults = faults;
    w.run();
}
#else
template<> void go<0>(bool);
template<> void go<1>(bool);
template<> void go<2>(bool);
void dispatch(bool faults)
{
    switch (choose(4))
    {
        case 0: return go<0>(faults);
        case 1: return go<1>(faults);
        default: return go<2>(faults);
    }
}
#endif
} // namespace hm
#if PART == 0
const std::vector<Prop>& sim::properties()
{
    static const std::vector<Prop> p{
        {"X01", [] { hm::dispatch(false); }, 40000, 4000000, "a seeded history over matrices of changing shape"},
        {"X02", [] { hm::dispatch(true); }, 45000, 4000000, "a seeded history in which a resize, transposition, copy or assignment failed"},
    };
    return p;
}
#endif
