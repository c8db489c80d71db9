// A strict reader of JSON texts (RFC 8259), independent of the one bundled with the library.
#pragma once

#include <cerrno>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <string>
#include <utility>
#include <vector>

namespace jtext {

struct Value
{
    enum Kind { Null, Bool, Signed, Unsigned, Real, String, Nested, TooBig } kind = Null;
    bool flag = false;
    int64_t i = 0;
    uint64_t u = 0;
    double d = 0;
    std::string s;
};

struct Text
{
    bool valid = false;
    bool object = false; // and not array nor scalar
    bool loose = false;  // readers may reasonably differ (byte order mark, zero byte behind, excessive numbers or nesting)
    std::vector<std::pair<std::string, Value>> members;
};

class Reader
{
    std::string const & t;
    std::size_t p = 0;
    Text out;

    int peek() const { return p < t.size() ? int(static_cast<unsigned char>(t[p])) : -1; }
    void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) ++p; }
    bool word(char const * w)
    {
        std::size_t const n = std::char_traits<char>::length(w);
        if (t.compare(p, n, w) != 0) return false;
        p += n;
        return true;
    }
    bool hex(unsigned & v)
    {
        v = 0;
        for (int k = 0; k < 4; ++k, ++p)
        {
            int const c = peek();
            if (c >= '0' && c <= '9') v = v * 16 + unsigned(c - '0');
            else if (c >= 'a' && c <= 'f') v = v * 16 + unsigned(c - 'a' + 10);
            else if (c >= 'A' && c <= 'F') v = v * 16 + unsigned(c - 'A' + 10);
            else return false;
        }
        return true;
    }
    static void encode(std::string & s, unsigned c)
    {
        if (c < 0x80) s += char(c);
        else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
        else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    }
    bool string(std::string & s)
    {
        s.clear();
        if (peek() != '"') return false;
        ++p;
        for (;;)
        {
            int const c = peek();
            if (c < 0x20) return false; // also the end of the text
            if (c == '"') { ++p; return true; }
            if (c == '\\')
            {
                ++p;
                int const e = peek();
                ++p;
                switch (e)
                {
                    case '"': case '\\': case '/': s += char(e); break;
                    case 'b': s += '\b'; break;
                    case 'f': s += '\f'; break;
                    case 'n': s += '\n'; break;
                    case 'r': s += '\r'; break;
                    case 't': s += '\t'; break;
                    case 'u':
                    {
                        unsigned a, b;
                        if (!hex(a)) return false;
                        if (a >= 0xDC00 && a < 0xE000) return false;
                        if (a >= 0xD800 && a < 0xDC00)
                        {
                            if (!word("\\u") || !hex(b) || b < 0xDC00 || b >= 0xE000) return false;
                            a = 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00);
                        }
                        encode(s, a);
                        break;
                    }
                    default: return false;
                }
                continue;
            }
            int const n = c < 0x80 ? 0 : c >= 0xC2 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : -1;
            if (n < 0) return false;
            s += char(c);
            ++p;
            for (int k = 0; k < n; ++k, ++p)
            {
                int const x = peek();
                int lo = 0x80, hi = 0xBF;
                if (k == 0 && c == 0xE0) lo = 0xA0;
                if (k == 0 && c == 0xED) hi = 0x9F;
                if (k == 0 && c == 0xF0) lo = 0x90;
                if (k == 0 && c == 0xF4) hi = 0x8F;
                if (x < lo || x > hi) return false;
                s += char(x);
            }
        }
    }
    bool digits()
    {
        auto const b = p;
        while (peek() >= '0' && peek() <= '9') ++p;
        return p > b;
    }
    bool number(Value & v)
    {
        auto const b = p;
        bool const minus = peek() == '-';
        if (minus) ++p;
        if (peek() == '0') ++p;
        else if (!digits()) return false;
        bool real = false;
        if (peek() == '.') { ++p; real = true; if (!digits()) return false; }
        if (peek() == 'e' || peek() == 'E')
        {
            ++p;
            real = true;
            if (peek() == '+' || peek() == '-') ++p;
            if (!digits()) return false;
        }
        std::string const n = t.substr(b, p - b);
        if (!real)
        {
            errno = 0;
            if (minus) { v.i = std::strtoll(n.c_str(), nullptr, 10); v.kind = Value::Signed; }
            else { v.u = std::strtoull(n.c_str(), nullptr, 10); v.kind = Value::Unsigned; }
            if (errno == 0) return true;
        }
        v.d = std::strtod(n.c_str(), nullptr);
        v.kind = Value::Real;
        if (!std::isfinite(v.d)) { v.kind = Value::TooBig; out.loose = true; }
        return true;
    }
    bool scalar(Value & v)
    {
        switch (peek())
        {
            case 'n': v.kind = Value::Null; return word("null");
            case 't': v.kind = Value::Bool; v.flag = true; return word("true");
            case 'f': v.kind = Value::Bool; v.flag = false; return word("false");
            case '"': v.kind = Value::String; return string(v.s);
            default: return number(v);
        }
    }
    bool key(std::string & k)
    {
        ws();
        if (!string(k)) return false;
        ws();
        if (peek() != ':') return false;
        ++p;
        return true;
    }
    // any value; what is nested is only checked for being well-formed
    bool value(Value & v)
    {
        std::string open;
        Value inner;
        std::string k;
        for (;;)
        {
            ws();
            bool done = true;
            if (peek() == '{' || peek() == '[')
            {
                bool const obj = peek() == '{';
                if (open.empty()) v.kind = Value::Nested;
                open += obj ? '{' : '[';
                if (open.size() > 30) out.loose = true;
                ++p;
                ws();
                if (peek() == (obj ? '}' : ']')) { ++p; open.pop_back(); }
                else
                {
                    if (obj && !key(k)) return false;
                    done = false;
                }
            }
            else if (!scalar(open.empty() ? v : inner)) return false;
            while (done && !open.empty())
            {
                ws();
                bool const obj = open.back() == '{';
                if (peek() == (obj ? '}' : ']')) { ++p; open.pop_back(); continue; }
                if (peek() != ',') return false;
                ++p;
                if (obj && !key(k)) return false;
                done = false;
            }
            if (done) return true;
        }
    }
    bool members()
    {
        ++p;
        ws();
        if (peek() == '}') { ++p; return true; }
        for (;;)
        {
            std::pair<std::string, Value> m;
            if (!key(m.first) || !value(m.second)) return false;
            out.members.push_back(std::move(m));
            ws();
            if (peek() == '}') { ++p; return true; }
            if (peek() != ',') return false;
            ++p;
        }
    }

public:
    explicit Reader(std::string const & text) : t(text) {}

    Text read()
    {
        if (t.compare(0, 3, "\xEF\xBB\xBF") == 0) { p = 3; out.loose = true; }
        ws();
        bool ok;
        if (peek() == '{') { out.object = true; ok = members(); }
        else { Value v; ok = value(v); }
        ws();
        if (peek() == 0) out.loose = true;
        else if (p < t.size()) ok = false;
        out.valid = ok;
        return out;
    }
};

inline Text read(std::string const & text) { return Reader(text).read(); }

} // namespace jtext
