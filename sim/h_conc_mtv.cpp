// C02: vectors, matrices and collections read by several threads at once.
#include "conc_mtv.hpp"
#include <mdds/multi_type_matrix.hpp>
#include <sstream>

namespace hconc {
struct TrV : mtv::default_traits {
    using block_funcs = mtv::element_block_funcs<mtv::int32_element_block, mtv::string_element_block, mtv::boolean_element_block, mtv::double_element_block, ObjBlk>;
};
struct TrP : mtv::default_traits {   // no managed objects
    static constexpr mtv::lu_factor_t loop_unrolling = mtv::lu_factor_t::lu8;
    using block_funcs = mtv::element_block_funcs<mtv::int32_element_block, mtv::string_element_block, mtv::boolean_element_block, mtv::double_element_block>;
};
struct TrCow : TrV {
    static constexpr bool enable_cow = true;
};

template<typename T, bool Cow, bool Managed> struct Vec {
    static std::unique_ptr<T> build(const Hist& h, size_t n)
    {
        auto t = std::make_unique<T>(n);
        T side(4, 3);
        for (auto& s : h)
            apply(*t, side, s);
        return t;
    }
    static Job<T> reader()
    {
        int a = (int)choose(64), b = (int)choose(64);
        switch (choose(Cow ? 10 : 14))
        {
            case 0: return {"get_type and get of every element", [](const T& t, Sink& o) { dump(t, o); }, {}};
            case 1: return {"iterate the blocks", [](const T& t, Sink& o) { dump_blocks(t.cbegin(), t.cend(), o); }, {}};
            case 2: return {"iterate the blocks backwards", [](const T& t, Sink& o) { dump_blocks(t.crbegin(), t.crend(), o); }, {}};
            case 3: return {"get one element", [a](const T& t, Sink& o) { if (t.size()) o.add(value_at(t, a % t.size())); }, {}};
            case 4: return {"position", [a](const T& t, Sink& o) { if (t.size()) { auto p = t.position(a % t.size()); o.add(p.second); o.add(p.first->size); o.add(p.first->type); o.add(block_value(*p.first, p.second)); } }, {}};
            case 5: return {"position with hint", [a, b](const T& t, Sink& o) { if (t.size()) { auto h = t.position(b % t.size()); auto p = t.position(h.first, a % t.size()); o.add(p.second); o.add(p.first->size); o.add(block_value(*p.first, p.second)); } }, {}};
            case 6: return {"sizes", [](const T& t, Sink& o) { o.add(t.size()); o.add(t.block_size()); o.add(t.empty()); }, {}};
            case 7: return {"is_empty", [a](const T& t, Sink& o) { if (t.size()) o.add(t.is_empty(a % t.size())); }, {}};
            case 8: return {"out of range access", [a](const T& t, Sink& o) { try { o.add(t.get_type(t.size() + a)); } catch (const std::out_of_range&) { o.add(-3); } }, {}};
            case 9: return {"walk positions", [](const T& t, Sink& o) { if (t.size()) { auto p = t.position(0); for (size_t i = 0; i < t.size(); ++i, p = T::next_position(p)) { o.add(T::logical_position(p)); o.add(block_value(*p.first, p.second)); } } }, {}};
            case 10: return {"compare with a copy", [](const T& t, Sink& o) { T c(t); o.add(c == t); o.add(t == c); o.add(t == t); }, {}};
            case 11: return {"copy, change and drop the copy", [a](const T& t, Sink& o) { T c(t); if (c.size()) c.set(a % c.size(), (int32_t)4711); c.push_back(std::string("x1")); dump(c, o); }, {}};
            case 12: return {"clone and compare", [](const T& t, Sink& o) { T c = t.clone(); dump(c, o); }, {}};
            default: return {"assign to a vector of its own", [](const T& t, Sink& o) { T c(3, (int32_t)5); c = t; c.resize(c.size() / 2); c.shrink_to_fit(); dump(c, o); }, {}};
        }
    }
    static Job<T> writer()
    {
        Hist h = mtv_history(1 + (int)choose_small(6), Managed);
        size_t n = choose(8);
        return {"build, read and drop a vector of its own", {}, [h, n](Sink& o) { auto t = build(h, n); dump(*t, o); T c(*t); o.add(c == *t); }};
    }
    static void go()
    {
        Hist h = mtv_history((int)choose_small(12), Managed);
        size_t n = choose(10);
        std::unique_ptr<T> a, b, extra;
        {
            Sut s;
            a = build(h, n);
            b = build(h, n);
            if (Cow && choose(2))
                extra = std::make_unique<T>(*a);
        }
        play<T>(*a, *b, reader, writer);
        Sut s;
        extra.reset();
        a.reset();
        b.reset();
    }
};

// ------------------------------------------------------------ collection
struct Coll {
    using V = mtv::soa::multi_type_vector<TrV>;
    using T = mtv::collection<V>;
    struct Box {
        std::vector<std::unique_ptr<V>> v;
        std::unique_ptr<T> c;
    };
    static std::unique_ptr<Box> build(const std::vector<Hist>& h, int er, int cr)
    {
        auto b = std::make_unique<Box>();
        for (auto& x : h)
        {
            b->v.push_back(std::make_unique<V>(8));
            V side(4, 3);
            for (auto& s : x)
                apply(*b->v.back(), side, s);
            b->v.back()->resize(8);
        }
        b->c = std::make_unique<T>(b->v.begin(), b->v.end());
        if (er)
            b->c->set_element_range(er % 4, 1 + er % 5);
        if (cr)
            b->c->set_collection_range(cr % h.size(), 1);
        return b;
    }
    static void all(const T& c, Sink& o, size_t most)
    {
        size_t n = 0;
        for (auto it = c.begin(); it != c.end() && n < most; ++it, ++n)
        {
            o.add(it->index);
            o.add(it->position);
            o.add(it->type);
            switch (it->type)
            {
                case mtv::element_type_int32: o.add(it->get<mtv::int32_element_block>()); break;
                case mtv::element_type_string: o.text(it->get<mtv::string_element_block>()); break;
                case kObj: { auto* p = it->get<ObjBlk>(); o.add(p ? p->v : -1); break; }
            }
        }
    }
    static Job<Box> reader()
    {
        int a = (int)choose(20);
        switch (choose(5))
        {
            case 0: case 1: return {"iterate", [](const Box& b, Sink& o) { all(*b.c, o, 1000); }, {}};
            case 2: return {"iterate a part", [a](const Box& b, Sink& o) { all(*b.c, o, a); }, {}};
            case 3: return {"copy, narrow and iterate", [a](const Box& b, Sink& o) { T c(*b.c); o.add(c.size()); c.set_element_range(a % 4, 2); all(c, o, 1000); }, {}};
            default: return {"read one vector", [a](const Box& b, Sink& o) { dump(*b.v[a % b.v.size()], o); }, {}};
        }
    }
    static Job<Box> writer()
    {
        Hist h = mtv_history(1 + (int)choose_small(4), true);
        return {"build, iterate and drop a collection of its own", {}, [h](Sink& o) { auto b = build({h, h}, 0, 0); all(*b->c, o, 1000); }};
    }
    static void go()
    {
        std::vector<Hist> h;
        for (int i = 0, n = 1 + (int)choose(3); i < n; ++i)
            h.push_back(mtv_history((int)choose_small(6), true));
        int er = (int)choose(8), cr = (int)choose(4);
        std::unique_ptr<Box> a, b;
        { Sut s; a = build(h, er, cr); b = build(h, er, cr); }
        play<Box>(*a, *b, reader, writer);
        Sut s;
        a.reset();
        b.reset();
    }
};

// ------------------------------------------------------------ multi_type_matrix
struct Mtx {
    using T = mdds::multi_type_matrix<mdds::mtm::std_string_traits>;
    using SP = T::size_pair_type;
    static void cell(const T& t, size_t r, size_t c, Sink& o)
    {
        switch (t.get_type(r, c))
        {
            case mdds::mtm::element_empty: o.add(0); break;
            case mdds::mtm::element_numeric: o.add((int64_t)(t.get_numeric(r, c) * 2) * 8 + 1); break;
            case mdds::mtm::element_boolean: o.add(t.get_boolean(r, c) * 8 + 2); break;
            case mdds::mtm::element_string: o.text(t.get_string(r, c)); break;
            case mdds::mtm::element_integer: o.add(t.get_integer(r, c) * 8 + 3); break;
        }
    }
    static void all(const T& t, Sink& o)
    {
        auto s = t.size();
        o.add(s.row);
        o.add(s.column);
        for (size_t r = 0; r < s.row; ++r)
            for (size_t c = 0; c < s.column; ++c)
                cell(t, r, c, o);
    }
    static std::unique_ptr<T> build(const Hist& h, int rows, int cols)
    {
        auto t = std::make_unique<T>(rows, cols);
        for (auto& s : h)
        {
            auto sz = t->size();
            if (!sz.row || !sz.column)
            {
                t->resize(2, 2);
                sz = t->size();
            }
            size_t r = s[1] % sz.row, c = s[2] % sz.column;
            switch (s[0])
            {
                case 0: case 1: t->set(r, c, s[4] * 0.5); break;
                case 2: case 3: t->set(r, c, str_of(s[4])); break;
                case 4: t->set(r, c, (bool)(s[4] & 1)); break;
                case 5: case 6: t->set(r, c, s[4]); break;
                case 7: t->set_empty(r, c); break;
                case 8: t->set_row_empty(r); break;
                case 9: t->set_column_empty(c); break;
                case 10: t->transpose(); break;
                case 11: t->resize(1 + s[1] % 5, 1 + s[2] % 5); break;
                case 12: t->resize(1 + s[1] % 5, 1 + s[2] % 5, s[4] * 1.5); break;
                case 13: { std::vector<double> v(std::min<size_t>(s[5], sz.row - r), s[4]); t->set(r, c, v.begin(), v.end()); break; }
                case 14: t->set_empty(r, c, std::min<size_t>(s[5], sz.row - r)); break;
                default: { std::vector<std::string> v(sz.row, str_of(s[4])); t->set_column(c, v.begin(), v.end()); break; }
            }
        }
        return t;
    }
    struct Walker {
        Sink* o;
        void operator()(const T::element_block_node_type& n)
        {
            o->add(n.type);
            o->add(n.size);
            if (n.type == mdds::mtm::element_string)
                for (auto it = n.begin<mtv::string_element_block>(); it != n.end<mtv::string_element_block>(); ++it)
                    o->text(*it);
            if (n.type == mdds::mtm::element_numeric)
                for (auto it = n.begin<mtv::double_element_block>(); it != n.end<mtv::double_element_block>(); ++it)
                    o->add((int64_t)(*it * 2));
        }
        void operator()(const T::element_block_node_type& l, const T::element_block_node_type& r)
        {
            (*this)(l);
            (*this)(r);
        }
    };
    static Job<T> reader()
    {
        int a = (int)choose(64), b = (int)choose(64), c = (int)choose(64), d = (int)choose(64);
        switch (choose(9))
        {
            case 0: return {"read every cell", [](const T& t, Sink& o) { all(t, o); }, {}};
            case 1: return {"walk", [](const T& t, Sink& o) { t.walk(Walker{&o}); }, {}};
            case 2: return {"walk a range", [=](const T& t, Sink& o) {
                auto s = t.size();
                if (!s.row || !s.column) return;
                size_t r1 = a % s.row, c1 = b % s.column, r2 = r1 + c % (s.row - r1), c2 = c1 + d % (s.column - c1);
                t.walk(Walker{&o}, SP(r1, c1), SP(r2, c2));
            }, {}};
            case 3: return {"walk with itself", [](const T& t, Sink& o) { t.walk(Walker{&o}, t); }, {}};
            case 4: return {"numeric", [](const T& t, Sink& o) { o.add(t.numeric()); o.add(t.empty()); o.add(t.size().row); }, {}};
            case 5: return {"positions", [=](const T& t, Sink& o) {
                auto s = t.size();
                if (!s.row || !s.column) return;
                auto p = t.position(a % s.row, b % s.column);
                o.add(t.get_type(p));
                auto m = t.matrix_position(p);
                o.add(m.row); o.add(m.column);
                auto p2 = t.position(p, c % s.row, d % s.column);
                o.add(t.get_type(p2));
            }, {}};
            case 6: return {"compare with a copy", [](const T& t, Sink& o) { T x(t); o.add(x == t); }, {}};
            case 7: return {"copy, transpose and read", [](const T& t, Sink& o) { T x(t); x.transpose(); all(x, o); }, {}};
            default: return {"copy into another", [](const T& t, Sink& o) { T x(3, 3, std::string("s9")); x.copy(t); all(x, o); }, {}};
        }
    }
    static Job<T> writer()
    {
        Hist h = mtv_history(1 + (int)choose_small(6), false);
        int r = 1 + (int)choose(4), c = 1 + (int)choose(4);
        return {"build, read and drop a matrix of its own", {}, [=](Sink& o) { auto t = build(h, r, c); all(*t, o); }};
    }
    static void go()
    {
        Hist h = mtv_history((int)choose_small(12), false);
        int r = 1 + (int)choose(4), c = 1 + (int)choose(4);
        std::unique_ptr<T> a, b;
        { Sut s; a = build(h, r, c); b = build(h, r, c); }
        play<T>(*a, *b, reader, writer);
        Sut s;
        a.reset();
        b.reset();
    }
};

#if PART == 0
void vec_soa() { Vec<mtv::soa::multi_type_vector<TrV>, false, true>::go(); }
void vec_soa_plain() { Vec<mtv::soa::multi_type_vector<TrP>, false, false>::go(); }
#elif PART == 1
void vec_aos() { Vec<mtv::aos::multi_type_vector<TrV>, false, true>::go(); }
void vec_cow() { Vec<mtv::soa::multi_type_vector<TrCow>, true, true>::go(); }
#else
void vec_soa();
void vec_soa_plain();
void vec_aos();
void vec_cow();
void vectors()
{
    switch (choose(7))
    {
        case 0: note("soa vector with managed objects"); return vec_soa();
        case 1: note("soa vector of values"); return vec_soa_plain();
        case 2: note("aos vector with managed objects"); return vec_aos();
        case 3: note("copy-on-write vector"); return vec_cow();
        case 4: note("collection"); return Coll::go();
        default: note("matrix"); return Mtx::go();
    }
}
#endif
} // namespace hconc
