// C15: bit and number containers behave like plain arrays. Model-based.
#include "engine.hpp"

#include "aligned_array.hpp"
#include "basic_bit_matrix.hpp"
#include "basic_bit_vector.hpp"
#include "basic_bit_vector_companion.hpp"
#include "basic_numeric_matrix.hpp"

#include <sys/resource.h>

#include <climits>
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <new>
#include <cstring>

using pbt::Bulk;
using pbt::Ctx;
using pbt::Tape;

namespace {

using Bits = std::vector<char>;

template<typename P>
bool aligned(P const * p, unsigned a) { return reinterpret_cast<uintptr_t>(p) % a == 0; }

// what has been moved from may hold anything, but no elements without storage
template<typename M>
bool usable(M const & m) { return m.rows() == 0 || m.cols() == 0 || m.data() != nullptr; }

template<typename Block, unsigned A>
bool usable(basic_bit_vector<Block, A> const & v) { return v.content_blocks() <= v.capacity_blocks() && v.size() <= v.capacity_blocks() * (sizeof (Block) * 8); }

unsigned gen_size(Tape & t, unsigned block)
{
    switch (t.weighted({2, 2, 3, 1}))
    {
        case 0: return unsigned(t.range(0, 4));
        case 1: return unsigned(t.range(0, 70));
        case 2: return unsigned(std::max(0, int(block) * t.range(0, 5) + t.range(-1, 1)));
        default: return unsigned(t.range(0, 1100));
    }
}

////////////////////////////////////////////////////////////////////////////////

template<typename Block, unsigned A>
void check_vector(basic_bit_vector<Block, A> const & v, Bits const & m, std::string const & when)
{
    constexpr std::size_t BB = 8 * sizeof (Block);
    PBT_CHECK(v.size() == m.size(), when << ": size is " << v.size() << ", expected " << m.size());
    std::size_t const blocks = (m.size() + BB - 1) / BB;
    PBT_CHECK(v.content_blocks() == blocks, when << ": " << v.content_blocks() << " content blocks, expected " << blocks);
    PBT_CHECK(v.capacity_blocks() >= blocks, when << ": " << v.capacity_blocks() << " blocks of storage, needed " << blocks);
    PBT_CHECK(v.tail_bits() == m.size() % BB, when << ": " << v.tail_bits() << " tail bits");
    for (std::size_t i = 0; i < m.size(); ++i)
    {
        PBT_CHECK(v[i] == unsigned(m[i]), when << ": bit " << i << " of " << m.size() << " is " << v[i] << ", expected " << int(m[i]));
        PBT_CHECK(((v.data()[i / BB] >> (i % BB)) & 1) == unsigned(m[i]), when << ": block of bit " << i << " disagrees");
    }
    for (std::size_t i = m.size(); i < blocks * BB; ++i)
        PBT_CHECK(((v.data()[i / BB] >> (i % BB)) & 1) == 0, when << ": padding bit " << i << " of a vector of " << m.size() << " is set");
    if (blocks) PBT_CHECK(aligned(v.data(), A) && aligned(v.data(), basic_bit_vector<Block, A>::alignment), when << ": storage is not aligned to " << A);
}

template<typename Block, unsigned A>
basic_bit_vector<Block, A> vector_from(Tape & t, Bits const & m, std::string & how)
{
    switch (t.range(0, 6))
    {
        case 0: how = "from_range(vector)"; return basic_bit_vectors::from_range<Block, Bits::const_iterator, A>(m.begin(), m.end());
        case 1: { how = "from_range(list)"; std::list<int> l; for (char c : m) l.push_back(c ? 5 : 0); return basic_bit_vectors::from_range<Block, decltype(l.begin()), A>(l.begin(), l.end()); }
        case 2: { how = "from_range(deque of bool)"; std::deque<bool> l(m.begin(), m.end()); return basic_bit_vectors::from_range<Block, decltype(l.begin()), A>(l.begin(), l.end()); }
        case 3: { how = "from_range(vector<bool>)"; std::vector<bool> l(m.begin(), m.end()); return basic_bit_vectors::from_range<Block, decltype(l.begin()), A>(l.begin(), l.end()); }
        case 4: { how = "from_range(char pointers)"; return basic_bit_vectors::from_range<Block, char const *, A>(m.data(), m.data() + m.size()); }
        case 5: { how = "from_range(forward_list of negative)"; std::forward_list<signed char> l; for (auto it = m.rbegin(); it != m.rend(); ++it) l.push_front(*it ? -128 : 0); return basic_bit_vectors::from_range<Block, decltype(l.begin()), A>(l.begin(), l.end()); }
        default:
        {
            how = "set bit by bit";
            basic_bit_vector<Block, A> v(m.size());
            for (std::size_t i = 0; i < m.size(); ++i) if (m[i]) v.set(i);
            return v;
        }
    }
}

template<typename Block, unsigned A>
void bit_vectors(Tape & t, Ctx & ctx)
{
    using V = basic_bit_vector<Block, A>;
    constexpr unsigned BB = 8 * sizeof (Block);
    auto gen_bits = [&]()
    {
        Bits m(gen_size(t, BB));
        Bulk b = t.bulk();
        int const style = int(b.below(4));
        for (auto & c : m) c = char(style == 1 ? 1 : style == 2 ? b.below(16) == 0 : b.below(2));
        return m;
    };
    std::vector<V> vs;
    std::vector<Bits> ms;
    std::string how;
    ms.push_back(gen_bits());
    vs.push_back(vector_from<Block, A>(t, ms[0], how));
    ctx.desc << "basic_bit_vector<uint" << BB << ", " << A << "> of " << ms[0].size() << ", " << how << ":";
    check_vector(vs[0], ms[0], how);
    int const ops = t.range(0, 24);
    for (int k = 0; k < ops; ++k)
    {
        std::size_t const i = t.index(vs.size());
        int const op = t.weighted({3, 3, 3, 3, 3, 2, 1, 1, 1, 1});
        std::ostringstream when;
        std::size_t const n = ms[i].size();
        if (op <= 4 && n == 0) continue;
        std::size_t const pos = op <= 4 ? (t.chance(1, 4) ? n - 1 : t.index(n)) : 0;
        bool const val = op >= 3 && op <= 4 ? t.coin() : false;
        switch (op)
        {
            case 0: when << "set(" << pos << ")"; vs[i].set(pos); ms[i][pos] = 1; break;
            case 1: when << "clear(" << pos << ")"; vs[i].clear(pos); ms[i][pos] = 0; break;
            case 2: when << "flip(" << pos << ")"; vs[i].flip(pos); ms[i][pos] ^= 1; break;
            case 3: when << "assign(" << pos << ", " << val << ")"; vs[i].assign(pos, val); ms[i][pos] = val; break;
            case 4: when << "XOR(" << pos << ", " << val << ")"; vs[i].XOR(pos, val); ms[i][pos] ^= char(val); break;
            case 5: when << "copied"; { V c(vs[i]); vs.push_back(std::move(c)); Bits mc(ms[i]); ms.push_back(mc); } break;
            case 6: when << "copy-assigned"; { std::size_t j = t.index(vs.size()); vs[j] = vs[i]; ms[j] = ms[i]; } break;
            case 7:
            {
                when << "moved";
                V c(std::move(vs[i]));
                PBT_CHECK(usable(vs[i]), "moved-from bit vector promises " << vs[i].size() << " bits it has no storage for");
                // what was moved from can be given another value
                if (val) { vs[i] = vs[0].size() ? vs[0] : c; V d(std::move(vs[i])); (void)d; }
                vs[i] = std::move(c);
                PBT_CHECK(usable(c), "moved-from bit vector promises " << c.size() << " bits it has no storage for");
                break;
            }
            case 8: { when << "new"; ms.push_back(gen_bits()); vs.push_back(vector_from<Block, A>(t, ms.back(), how)); when << " " << how; break; }
            default:
            {
                // made of blocks
                when << "made of blocks";
                std::size_t const blocks = (n + BB - 1) / BB, spare = t.index(3);
                typename V::aligned_vector raw(blocks + spare);
                for (std::size_t p = 0; p < n; ++p) if (ms[i][p]) raw[p / BB] = Block(raw[p / BB] | Block(Block(1) << (p % BB)));
                V v(n, std::move(raw));
                PBT_CHECK(v.capacity_blocks() == blocks + spare, "capacity is " << v.capacity_blocks() << " blocks, given " << blocks + spare);
                vs[i] = v;
                break;
            }
        }
        if (vs.size() > 5) { vs.erase(vs.begin()); ms.erase(ms.begin()); }
        ctx.desc << " " << when.str();
        for (std::size_t j = 0; j < vs.size(); ++j) check_vector(vs[j], ms[j], "after " + when.str() + (j == i ? "" : " on another vector"));
        ++ctx.sub_evaluations;
    }
    V const empty;
    check_vector(empty, Bits(), "default");
    ctx.nontrivial = ops > 0 && ms[0].size() > 0;
    ctx.label("bit vectors");
}

////////////////////////////////////////////////////////////////////////////////

struct BitModel
{
    unsigned rows = 0, cols = 0;
    Bits v;
    char & at(unsigned r, unsigned c) { return v[std::size_t(r) * cols + c]; }
    char at(unsigned r, unsigned c) const { return v[std::size_t(r) * cols + c]; }
};

template<typename Block, unsigned A>
void check_matrix(basic_bit_matrix<Block, A> const & v, BitModel const & m, std::string const & when)
{
    constexpr std::size_t BB = 8 * sizeof (Block);
    PBT_CHECK(v.rows() == m.rows && v.cols() == m.cols && v.shape() == std::make_pair(m.rows, m.cols),
        when << ": shape is " << v.rows() << "x" << v.cols() << ", expected " << m.rows << "x" << m.cols);
    for (unsigned r = 0; r < m.rows && m.cols; ++r)
    {
        auto const * p = v.row_data(r);
        PBT_CHECK(aligned(p, A), when << ": row " << r << " is not aligned to " << A);
        PBT_CHECK(p == v.data() + v.row_offset(r), when << ": row " << r << " is not at its offset");
        for (unsigned c = 0; c < m.cols; ++c)
        {
            PBT_CHECK(v.test(r, c) == unsigned(m.at(r, c)) && v[std::make_pair(std::size_t(r), std::size_t(c))] == unsigned(m.at(r, c)),
                when << ": bit " << r << "," << c << " of " << m.rows << "x" << m.cols << " is " << v.test(r, c) << ", expected " << int(m.at(r, c)));
            PBT_CHECK(((p[c / BB] >> (c % BB)) & 1) == unsigned(m.at(r, c)), when << ": block of bit " << r << "," << c << " disagrees");
        }
        PBT_CHECK(v.row_blocks() * BB >= m.cols, when << ": rows are too short");
        for (std::size_t c = m.cols; c < v.row_blocks() * BB; ++c)
            PBT_CHECK(((p[c / BB] >> (c % BB)) & 1) == 0, when << ": padding bit " << c << " of row " << r << " of " << m.cols << " is set");
    }
}

template<typename Block, unsigned A>
void bit_matrices(Tape & t, Ctx & ctx)
{
    using M = basic_bit_matrix<Block, A>;
    constexpr unsigned BB = 8 * sizeof (Block);
    std::vector<M> vs;
    std::vector<BitModel> ms;
    auto fresh = [&]()
    {
        BitModel m;
        m.rows = unsigned(t.pick({1, 2, 3, 0, 5, 17}));
        m.cols = std::min(gen_size(t, t.coin() ? BB : 8 * A), 1100u);
        m.v.assign(std::size_t(m.rows) * m.cols, 0);
        vs.push_back(M(m.rows, m.cols));
        ms.push_back(m);
        check_matrix(vs.back(), m, "new");
        // content, through one of the ways to write
        Bulk b = t.bulk();
        bool const rowwise = t.coin();
        for (unsigned r = 0; r < m.rows && m.cols; ++r)
        {
            auto view = vs.back().row(r);
            for (unsigned c = 0; c < m.cols; ++c)
                if (b.below(2)) { ms.back().at(r, c) = 1; if (rowwise) view.set(c); else vs.back().set(r, c); }
        }
    };
    {
        M const empty;
        check_matrix(empty, BitModel(), "default");
        M const copy(empty);
        PBT_CHECK(copy == empty && empty == M(0, 0), "empty matrices differ");
        if (t.chance(1, 4)) { vs.push_back(copy); ms.push_back(BitModel()); }
    }
    fresh();
    ctx.desc << "basic_bit_matrix<uint" << BB << ", " << A << "> " << ms.back().rows << "x" << ms.back().cols << ":";
    check_matrix(vs.back(), ms.back(), "filled");
    int const ops = t.range(0, 24);
    for (int k = 0; k < ops; ++k)
    {
        std::size_t const i = t.index(vs.size());
        int const op = t.weighted({3, 3, 3, 3, 3, 3, 1, 1, 1, 1, 1});
        auto & m = ms[i];
        bool const element = op <= 5;
        if (element && (m.rows == 0 || m.cols == 0)) continue;
        unsigned const r = element ? unsigned(t.index(m.rows)) : 0;
        unsigned const c = element ? (t.chance(1, 4) ? m.cols - 1 : unsigned(t.index(m.cols))) : 0;
        std::ostringstream when;
        switch (op)
        {
            case 0: when << "set(" << r << "," << c << ")"; vs[i].set(r, c); m.at(r, c) = 1; break;
            case 1: when << "clear(" << r << "," << c << ")"; vs[i].clear(r, c); m.at(r, c) = 0; break;
            case 2: when << "flip(" << r << "," << c << ")"; vs[i].flip(r, c); m.at(r, c) ^= 1; break;
            case 3: when << "row(" << r << ").set(" << c << ")"; vs[i].row(r).set(c); m.at(r, c) = 1; break;
            case 4: when << "row(" << r << ").clear(" << c << ")"; vs[i][r].clear(c); m.at(r, c) = 0; break;
            case 5: when << "row(" << r << ").flip(" << c << ")"; { auto w = vs[i].row(r); w.flip(c); m.at(r, c) ^= 1;
                PBT_CHECK(w.test(c) == unsigned(m.at(r, c)) && w[c] == w.test(c), "row view reads " << w.test(c));
                PBT_CHECK(w.content_blocks() == (m.cols + BB - 1) / BB && w.tail_bits() == m.cols % BB && w.data() == vs[i].row_data(r), "row view has wrong extent"); } break;
            case 6: when << "copied"; { M x(vs[i]); BitModel y = ms[i]; vs.push_back(std::move(x)); ms.push_back(y); } break;
            case 7: when << "copy-assigned"; { std::size_t j = t.index(vs.size()); vs[j] = vs[i]; ms[j] = BitModel(ms[i]); } break;
            case 8: when << "moved"; { M x(std::move(vs[i])); PBT_CHECK(usable(vs[i]), "moved-from matrix promises elements it has no storage for"); vs[i] = std::move(x); PBT_CHECK(usable(x), "moved-from matrix promises elements it has no storage for"); } break;
            case 9: when << "new"; fresh(); break;
            default:
            {
                when << "compared";
                std::size_t j = t.index(vs.size());
                bool const same = ms[i].rows == ms[j].rows && ms[i].cols == ms[j].cols && ms[i].v == ms[j].v;
                PBT_CHECK((vs[i] == vs[j]) == same, "matrices compare " << (same ? "unequal" : "equal"));
                break;
            }
        }
        if (vs.size() > 4) { vs.erase(vs.begin()); ms.erase(ms.begin()); }
        ctx.desc << " " << when.str();
        for (std::size_t j = 0; j < vs.size(); ++j) check_matrix(vs[j], ms[j], "after " + when.str() + (j == i ? "" : " on another matrix"));
        ++ctx.sub_evaluations;
    }
    ctx.nontrivial = ops > 0 && (!ms.front().v.empty() || !ms.back().v.empty());
    ctx.label("bit matrices");
}

////////////////////////////////////////////////////////////////////////////////

template<typename T>
struct NumModel
{
    unsigned rows = 0, cols = 0;
    std::vector<T> v;
    T & at(unsigned r, unsigned c) { return v[std::size_t(r) * cols + c]; }
    T at(unsigned r, unsigned c) const { return v[std::size_t(r) * cols + c]; }
};

template<typename T, unsigned A>
void check_numbers(basic_numeric_matrix<T, A> const & v, NumModel<T> const & m, std::string const & when)
{
    PBT_CHECK(v.rows() == m.rows && v.cols() == m.cols && v.shape() == std::make_pair(m.rows, m.cols),
        when << ": shape is " << v.rows() << "x" << v.cols() << ", expected " << m.rows << "x" << m.cols);
    for (unsigned r = 0; r < m.rows && m.cols; ++r)
    {
        T const * p = v.row_data(r);
        PBT_CHECK(aligned(p, A), when << ": row " << r << " is not aligned to " << A);
        PBT_CHECK(p == v.data() + v.row_offset(r) && v.row_items() >= m.cols, when << ": row " << r << " is not at its offset");
        for (unsigned c = 0; c < m.cols; ++c)
            PBT_CHECK(p[c] == m.at(r, c) && v[std::make_pair(std::size_t(r), std::size_t(c))] == m.at(r, c),
                when << ": element " << r << "," << c << " of " << m.rows << "x" << m.cols << " is " << double(p[c]) << ", expected " << double(m.at(r, c)));
    }
}

template<typename T, unsigned A>
void numbers(Tape & t, Ctx & ctx)
{
    using M = basic_numeric_matrix<T, A>;
    std::vector<M> vs;
    std::vector<NumModel<T>> ms;
    auto fresh = [&]()
    {
        NumModel<T> m;
        m.rows = unsigned(t.pick({1, 2, 3, 0, 5, 17}));
        m.cols = std::min(gen_size(t, unsigned(A / sizeof (T))), 300u);
        m.v.assign(std::size_t(m.rows) * m.cols, 0);
        vs.push_back(M(m.rows, m.cols));
        check_numbers(vs.back(), m, "new");
        Bulk b = t.bulk();
        for (unsigned r = 0; r < m.rows && m.cols; ++r)
            for (unsigned c = 0; c < m.cols; ++c) vs.back().row_data(r)[c] = m.at(r, c) = T(int64_t(b.next() % 100000) - 50000);
        ms.push_back(m);
    };
    {
        M const empty;
        check_numbers(empty, NumModel<T>(), "default");
        M const copy(empty);
        PBT_CHECK(copy == empty && empty == M(0, 0), "empty matrices differ");
        if (t.chance(1, 4)) { vs.push_back(copy); ms.push_back(NumModel<T>()); }
    }
    fresh();
    ctx.desc << "basic_numeric_matrix<" << sizeof (T) << " bytes, " << A << "> " << ms.back().rows << "x" << ms.back().cols << ":";
    check_numbers(vs.back(), ms.back(), "filled");
    int const ops = t.range(0, 20);
    for (int k = 0; k < ops; ++k)
    {
        std::size_t const i = t.index(vs.size());
        int const op = t.weighted({4, 4, 1, 1, 1, 1, 1});
        auto & m = ms[i];
        if (op <= 1 && (m.rows == 0 || m.cols == 0)) continue;
        std::ostringstream when;
        switch (op)
        {
            case 0:
            case 1:
            {
                unsigned const r = unsigned(t.index(m.rows)), c = t.chance(1, 4) ? m.cols - 1 : unsigned(t.index(m.cols));
                T const v = T(t.range(-100, 100));
                when << "write(" << r << "," << c << ")";
                if (op == 0) vs[i].row_data(r)[c] = v;
                else vs[i].data()[vs[i].row_offset(r) + c] = v;
                m.at(r, c) = v;
                break;
            }
            case 2: when << "copied"; { M x(vs[i]); auto y = ms[i]; vs.push_back(std::move(x)); ms.push_back(y); } break;
            case 3: when << "copy-assigned"; { std::size_t j = t.index(vs.size()); vs[j] = vs[i]; auto y = ms[i]; ms[j] = y; } break;
            case 4: when << "moved"; { M x(std::move(vs[i])); PBT_CHECK(usable(vs[i]), "moved-from matrix promises elements it has no storage for"); vs[i] = std::move(x); } break;
            case 5: when << "new"; fresh(); break;
            default:
            {
                when << "compared";
                std::size_t j = t.index(vs.size());
                bool const same = ms[i].rows == ms[j].rows && ms[i].cols == ms[j].cols && ms[i].v == ms[j].v;
                PBT_CHECK((vs[i] == vs[j]) == same, "matrices compare " << (same ? "unequal" : "equal"));
                break;
            }
        }
        if (vs.size() > 4) { vs.erase(vs.begin()); ms.erase(ms.begin()); }
        ctx.desc << " " << when.str();
        for (std::size_t j = 0; j < vs.size(); ++j) check_numbers(vs[j], ms[j], "after " + when.str() + (j == i ? "" : " on another matrix"));
        ++ctx.sub_evaluations;
    }
    ctx.nontrivial = ops > 0 && (!ms.front().v.empty() || !ms.back().v.empty());
    ctx.label("number matrices");
}

////////////////////////////////////////////////////////////////////////////////

template<typename T, std::size_t N, std::size_t A>
void arrays(Tape & t, Ctx & ctx)
{
    using Arr = AlignedArray<T, N, A>;
    using Model = std::vector<T>;
    // placed at every possible offset within a guarded buffer
    struct Slot
    {
        std::unique_ptr<unsigned char[]> mem;
        Arr * p = nullptr;
        std::size_t off = 0, len = 0;
        ~Slot() { if (p) p->~Arr(); }
        void make(std::size_t shift, Arr const * from)
        {
            len = sizeof (Arr) + 2 * A + 64;
            mem.reset(new unsigned char[len]);
            memset(mem.get(), 0xA5, len);
            std::size_t const al = alignof (Arr);
            auto const base = reinterpret_cast<uintptr_t>(mem.get()) + 16;
            off = (base + al - 1) / al * al + shift * al - reinterpret_cast<uintptr_t>(mem.get());
            p = from ? new (mem.get() + off) Arr(*from) : new (mem.get() + off) Arr;
        }
        bool intact() const
        {
            for (std::size_t i = 0; i < off; ++i) if (mem[i] != 0xA5) return false;
            for (std::size_t i = off + sizeof (Arr); i < len; ++i) if (mem[i] != 0xA5) return false;
            return true;
        }
    };
    std::vector<std::unique_ptr<Slot>> vs;
    std::vector<Model> ms;
    std::size_t const shifts = A / alignof (Arr) + 1;
    auto check = [&](std::string const & when)
    {
        for (std::size_t k = 0; k < vs.size(); ++k)
        {
            Arr const & a = *vs[k]->p;
            PBT_CHECK(aligned(a.data(), A), when << ": data of an array at shift " << vs[k]->off << " is not aligned to " << A);
            PBT_CHECK(reinterpret_cast<unsigned char const *>(a.data()) >= reinterpret_cast<unsigned char const *>(&a)
                && reinterpret_cast<unsigned char const *>(a.data() + N) <= reinterpret_cast<unsigned char const *>(&a + 1), when << ": elements lie outside of the array");
            PBT_CHECK(vs[k]->intact(), when << ": memory around the array was overwritten");
            for (std::size_t i = 0; i < N; ++i) PBT_CHECK(a[i] == ms[k][i], when << ": element " << i << " is " << double(a[i]) << ", expected " << double(ms[k][i]));
            PBT_CHECK(a.cend() - a.cbegin() == std::ptrdiff_t(N) && a.cbegin() == a.data(), when << ": wrong extent");
        }
    };
    auto fresh = [&]()
    {
        vs.emplace_back(new Slot);
        vs.back()->make(t.index(shifts), nullptr);
        Model m;
        Bulk b = t.bulk();
        for (auto it = vs.back()->p->begin(); it != vs.back()->p->end(); ++it) { m.push_back(T(b.below(200))); *it = m.back(); }
        ms.push_back(m);
    };
    fresh();
    ctx.desc << "AlignedArray<" << sizeof (T) << " bytes, " << N << ", " << A << ">:";
    check("new");
    int const ops = t.range(0, 16);
    for (int k = 0; k < ops; ++k)
    {
        std::size_t const i = t.index(vs.size());
        std::string when;
        switch (t.weighted({4, 2, 2, 1, 1}))
        {
            case 0: { when = "write"; std::size_t p = t.index(N); T v = T(t.range(0, 100)); (*vs[i]->p)[p] = v; ms[i][p] = v; break; }
            case 1: { when = "copied"; vs.emplace_back(new Slot); vs.back()->make(t.index(shifts), vs[i]->p); Model m = ms[i]; ms.push_back(m); break; }
            case 2: { when = "copy-assigned"; std::size_t j = t.index(vs.size()); *vs[j]->p = *vs[i]->p; Model m = ms[i]; ms[j] = m; break; }
            case 3: { when = "compared"; std::size_t j = t.index(vs.size()); PBT_CHECK((*vs[i]->p == *vs[j]->p) == (ms[i] == ms[j]) && (*vs[i]->p != *vs[j]->p) == (ms[i] != ms[j]), "arrays compare wrongly"); break; }
            default: when = "new"; fresh(); break;
        }
        if (vs.size() > 4) { vs.erase(vs.begin()); ms.erase(ms.begin()); }
        ctx.desc << " " << when;
        check("after " + when);
        ++ctx.sub_evaluations;
    }
    ctx.nontrivial = ops > 0;
    ctx.label("aligned arrays");
}

// Matrices of more elements than 32 bits can count: there is either storage for all of them, or an exception. Address
// space is limited, so that only the latter can happen.
template<typename M>
void beyond(Tape & t, Ctx & ctx, uint64_t bits, char const * what)
{
    uint64_t const limit = uint64_t(1) << 31;                   // bytes
    uint64_t const total = (uint64_t(1) << 32) + t.pick({0u, 64u, 1u << 20, 1u << 30, 0x80000000u});    // bytes of content, at least
    uint64_t const cols = uint64_t(t.pick({64, 65536, 65600, 1 << 20, 1 << 30, (1 << 30) + 1, INT_MAX, 1 << 24, 200, 1024}));
    uint64_t const row = std::max<uint64_t>(1, cols * bits / 8);
    uint64_t const rows = (total + row - 1) / row;
    ctx.desc << what << " " << rows << "x" << cols;
    if (rows > INT_MAX) return;
    rlimit old;
    PBT_CHECK(getrlimit(RLIMIT_AS, &old) == 0, "cannot read limits");
    rlimit low = old;
    low.rlim_cur = std::min<uint64_t>(limit, old.rlim_max);
    PBT_CHECK(setrlimit(RLIMIT_AS, &low) == 0, "cannot set limits");
    bool made = false;
    try
    {
        M const m{unsigned(rows), unsigned(cols)};
        made = true;
    }
    catch (std::exception const &) {}
    setrlimit(RLIMIT_AS, &old);
    PBT_CHECK(!made, what << " of " << rows << "x" << cols << " was made within " << limit << " bytes, which cannot hold its elements");
    ctx.nontrivial = true;
    ctx.label("matrices beyond 2^32 elements");
}

// Likewise bit vectors of nearly as many bits as can be counted
template<typename V>
void beyond_vector(Tape & t, Ctx & ctx, char const * what)
{
    uint64_t const bits = t.coin() ? UINT64_MAX - t.draw(300) : t.coin() ? (uint64_t(1) << t.range(36, 63)) + t.draw(3) - 1 : (UINT64_MAX >> t.range(0, 27)) - t.draw(70);
    ctx.desc << what << " of " << bits << " bits";
    rlimit old;
    PBT_CHECK(getrlimit(RLIMIT_AS, &old) == 0, "cannot read limits");
    rlimit low = old;
    low.rlim_cur = std::min<uint64_t>(uint64_t(1) << 31, old.rlim_max);
    PBT_CHECK(setrlimit(RLIMIT_AS, &low) == 0, "cannot set limits");
    bool made = false;
    try { V const v(bits); made = true; }
    catch (std::exception const &) {}
    setrlimit(RLIMIT_AS, &old);
    PBT_CHECK(!made, what << " of " << bits << " bits was made within 2^31 bytes, which cannot hold its elements");
    ctx.nontrivial = true;
    ctx.label("vectors beyond memory");
}

void run(Tape & t, Ctx & ctx)
{
    if (t.chance(1, 1000))
    {
        switch (t.range(0, 2))
        {
            case 0: beyond_vector<basic_bit_vector<uint64_t>>(t, ctx, "basic_bit_vector<uint64_t>"); break;
            case 1: beyond_vector<basic_bit_vector<uint8_t>>(t, ctx, "basic_bit_vector<uint8_t>"); break;
            default: beyond_vector<basic_bit_vector<uint32_t>>(t, ctx, "basic_bit_vector<uint32_t>"); break;
        }
        return;
    }
    if (t.chance(1, 1000))
    {
        switch (t.range(0, 3))
        {
            case 0: beyond<basic_numeric_matrix<int8_t>>(t, ctx, 8, "basic_numeric_matrix<int8_t>"); break;
            case 1: beyond<basic_numeric_matrix<int16_t>>(t, ctx, 16, "basic_numeric_matrix<int16_t>"); break;
            case 2: beyond<basic_numeric_matrix<int32_t>>(t, ctx, 32, "basic_numeric_matrix<int32_t>"); break;
            default: beyond<basic_bit_matrix<uint64_t>>(t, ctx, 1, "basic_bit_matrix<uint64_t>"); break;
        }
        return;
    }
    switch (t.range(0, 3))
    {
        case 0:
            switch (t.range(0, 7))
            {
                case 0: bit_vectors<uint64_t, 64>(t, ctx); break;
                case 1: bit_vectors<uint32_t, 64>(t, ctx); break;
                case 2: bit_vectors<uint16_t, 64>(t, ctx); break;
                case 3: bit_vectors<uint8_t, 64>(t, ctx); break;
                case 4: bit_vectors<uint64_t, 16>(t, ctx); break;
                case 5: bit_vectors<uint8_t, 16>(t, ctx); break;
                case 6: bit_vectors<uint32_t, 128>(t, ctx); break;
                default: bit_vectors<uint16_t, 32>(t, ctx); break;
            }
            break;
        case 1:
            switch (t.range(0, 7))
            {
                case 0: bit_matrices<uint64_t, 64>(t, ctx); break;
                case 1: bit_matrices<uint32_t, 64>(t, ctx); break;
                case 2: bit_matrices<uint16_t, 64>(t, ctx); break;
                case 3: bit_matrices<uint8_t, 64>(t, ctx); break;
                case 4: bit_matrices<uint64_t, 16>(t, ctx); break;
                case 5: bit_matrices<uint8_t, 16>(t, ctx); break;
                case 6: bit_matrices<uint32_t, 128>(t, ctx); break;
                default: bit_matrices<uint64_t, 8>(t, ctx); break;
            }
            break;
        case 2:
            switch (t.range(0, 7))
            {
                case 0: numbers<int8_t, 64>(t, ctx); break;
                case 1: numbers<int16_t, 64>(t, ctx); break;
                case 2: numbers<int32_t, 64>(t, ctx); break;
                case 3: numbers<int8_t, 16>(t, ctx); break;
                case 4: numbers<int32_t, 16>(t, ctx); break;
                case 5: numbers<float, 32>(t, ctx); break;
                case 6: numbers<double, 64>(t, ctx); break;
                default: numbers<int64_t, 128>(t, ctx); break;
            }
            break;
        default:
            switch (t.range(0, 7))
            {
                case 0: arrays<int, 16, 64>(t, ctx); break;
                case 1: arrays<char, 1, 64>(t, ctx); break;
                case 2: arrays<char, 65, 64>(t, ctx); break;
                case 3: arrays<double, 3, 32>(t, ctx); break;
                case 4: arrays<int16_t, 7, 16>(t, ctx); break;
                case 5: arrays<int, 33, 128>(t, ctx); break;
                case 6: arrays<float, 5, 4>(t, ctx); break;
                default: arrays<uint8_t, 17, 1>(t, ctx); break;
            }
            break;
    }
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C15", run, 3000000, 60000000, 8, 60,
        "distinct sequences of at least one operation on containers with at least one element",
        {"block, element and alignment types are a fixed pool of 8 instantiations per container"}};
    return p;
}
