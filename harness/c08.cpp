// C08: any parameter text gives a valid configuration or a bad-JSON status.
#include "tsm.hpp"

#include "json_text.hpp"

#include <cmath>
#include <thread>

using namespace tsm;
using jtext::Value;

namespace {

enum class Verdict { Accept, Reject, Either };

struct Spec { std::string type; }; // int, seed, real, bool, text

// Documented parameters, their types and defaults
struct Param { char const * key; char type; char const * dflt; int who; }; // who: 1 classifier, 2 regressor, 3 both
Param const PARAMS[] = {
    {"number_of_clauses_per_label", 'i', "0:12", 1},
    {"number_of_regressor_clauses", 'i', "0:20", 2},
    {"number_of_states", 'i', "0:100", 3},
    {"s", 'r', "2:2", 3},
    {"threshold", 'i', "0:15", 3},
    {"weighted", 'b', "", 3},
    {"max_weight", 'i', "0:2147483647", 3},
    {"boost_true_positive_feedback", 'i', "0:0", 3},
    {"n_jobs", 'i', "", 3},
    {"verbose", 'b', "3:0", 3},
    {"counting_type", 't', "5:auto", 3},
    {"clause_output_tile_size", 'i', "0:16", 3},
    {"loss_fn", 't', "5:MSE", 2},
    {"loss_fn_C1", 'r', "2:0", 2},
    {"box_muller", 'b', "3:0", 2},
    {"random_state", 's', "", 3},
};

std::string real_str(float f) { return param_str(param_value_t(real_type(f))); }

bool in(std::string const & v, std::initializer_list<char const *> l)
{
    return std::any_of(l.begin(), l.end(), [&](char const * x){ return v == x; });
}

// Verdict on one value of a parameter of this kind of estimator, and its expected text
Verdict judge(Param const & p, Value const & v, std::string & want)
{
    std::string const key = p.key;
    if (p.type == 'i' || p.type == 's')
    {
        if (p.type == 's' && v.kind == Value::Null) { want = "*"; return Verdict::Accept; }
        double const lo = p.type == 's' ? 0. : double(INT_MIN), hi = p.type == 's' ? double(UINT_MAX) : double(INT_MAX);
        int64_t x;
        bool loose = false;
        if (v.kind == Value::Bool)
        {
            x = v.flag;
            loose = true;
        }
        else if (v.kind == Value::Real)
        {
            if (!(v.d >= lo && v.d <= hi) || std::floor(v.d) != v.d) return Verdict::Reject;
            x = int64_t(v.d);
            loose = true; // integer written as a real number
        }
        else if (v.kind == Value::Unsigned)
        {
            if (v.u > uint64_t(hi)) return Verdict::Reject;
            x = int64_t(v.u);
        }
        else if (v.kind == Value::Signed)
        {
            x = v.i;
            if (x < int64_t(lo) || x > int64_t(hi)) return Verdict::Reject;
        }
        else return Verdict::Reject;
        bool good = true;
        if (key == "number_of_clauses_per_label") good = x >= 1 && x % 4 == 0;
        else if (key == "number_of_regressor_clauses") good = x >= 1 && x % 2 == 0;
        else if (key == "number_of_states" || key == "threshold" || key == "max_weight") good = x >= 1;
        else if (key == "boost_true_positive_feedback") good = x == 0 || x == 1;
        else if (key == "n_jobs") good = x == -1 || x >= 1;
        else if (key == "clause_output_tile_size") good = x == 16 || x == 32 || x == 64 || x == 128;
        if (!good) return Verdict::Reject;
        want = (p.type == 's' ? "1:" : "0:") + std::to_string(x);
        if (key == "n_jobs" && x == -1) want = "0:" + std::to_string(std::max(1u, std::thread::hardware_concurrency()));
        return loose ? Verdict::Either : Verdict::Accept;
    }
    if (p.type == 'r')
    {
        bool loose = v.kind == Value::Bool;
        double d;
        switch (v.kind)
        {
            case Value::Bool: d = v.flag; break;
            case Value::Real: d = v.d; break;
            case Value::Signed: d = double(v.i); break;
            case Value::Unsigned: d = double(v.u); break;
            default: return Verdict::Reject;
        }
        float const f = float(d);
        if (!std::isfinite(f)) return Verdict::Reject;
        if (key == "s")
        {
            if (f < 1.f) return Verdict::Reject;
            if (d < 1.0) loose = true;
        }
        else if (d < 0 || d > 1) loose = true;
        want = real_str(f);
        return loose ? Verdict::Either : Verdict::Accept;
    }
    if (p.type == 'b')
    {
        if (v.kind != Value::Bool) return Verdict::Reject;
        want = v.flag ? "3:1" : "3:0";
        return Verdict::Accept;
    }
    if (v.kind != Value::String) return Verdict::Reject;
    auto const & s = v.s;
    bool const good = key == "counting_type" ? in(s, {"auto", "int8", "int16", "int32"}) : in(s, {"MSE", "MAE", "L2", "L1", "L1+2", "berHu"});
    if (!good) return Verdict::Reject;
    want = "5:" + s;
    return Verdict::Accept;
}

Verdict judge_text(jtext::Text const & doc, bool regressor, std::map<std::string, std::string> & want)
{
    int const me = regressor ? 2 : 1;
    if (!doc.valid || !doc.object) return Verdict::Reject;
    for (auto const & p : PARAMS)
    {
        if (!(p.who & me)) continue;
        std::string d = p.dflt;
        std::string const key = p.key;
        if (key == "weighted") d = regressor ? "3:1" : "3:0";
        if (key == "n_jobs") d = "0:" + std::to_string(std::max(1u, std::thread::hardware_concurrency()));
        if (key == "random_state") d = "*";
        want[key] = d;
    }
    Verdict rv = doc.loose ? Verdict::Either : Verdict::Accept;
    std::map<std::string, Value> members; // of keys given more than once the last one counts
    for (auto const & m : doc.members) members[m.first] = m.second;
    for (auto const & m : members)
    {
        Param const * p = nullptr;
        for (auto const & q : PARAMS) if (m.first == q.key) p = &q;
        if (!p) return Verdict::Reject;
        if (!(p->who & me))
        {
            // parameter of the other kind of estimator: ignored or refused
            rv = Verdict::Either;
            continue;
        }
        std::string w;
        auto const v = judge(*p, m.second, w);
        if (v == Verdict::Reject) return Verdict::Reject;
        if (v == Verdict::Either) rv = Verdict::Either;
        want[m.first] = w;
    }
    return rv;
}

////////////////////////////////////////////////////////////////////////////////
// Texts

std::string quote(Tape & t, std::string const & s)
{
    std::string r = "\"";
    bool const esc = t.chance(1, 12);
    for (unsigned char c : s)
    {
        if (esc && t.chance(1, 3)) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}

std::string gen_number(Tape & t)
{
    switch (t.weighted({4, 2, 2, 2}))
    {
        case 0: return std::to_string(t.range(-3, 130));
        case 1: return t.pick<std::string>({"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967292",
            "4294967308", "8589934604", "-4294967284", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775808",
            "-9223372036854775809", "18446744073709551632", "2147483644", "2147483646"});
        case 2: return t.pick<std::string>({"1.0", "1.5", "0.99", "0.999999999999", "1e0", "1e2", "1e10", "1e38", "3.5e38", "1e39", "1e308", "1e309", "-0", "-0.0", "0.5", "12.5",
            "16.0", "15.000001", "1e-400", "2.0000000001", "1E1", "120e-1", "4.0", "100000000000000000000.0", "-1.0", "1.2345678901234567"});
        default: return std::to_string(t.range(-2000000000, 2000000000));
    }
}

std::string gen_good(Tape & t, Param const & p)
{
    std::string const key = p.key;
    switch (p.type)
    {
        case 'i':
            if (key == "number_of_clauses_per_label") return std::to_string(4 * t.range(1, 500));
            if (key == "number_of_regressor_clauses") return std::to_string(2 * t.range(1, 500));
            if (key == "boost_true_positive_feedback") return std::to_string(t.range(0, 1));
            if (key == "n_jobs") return t.coin() ? "-1" : std::to_string(t.range(1, 300));
            if (key == "clause_output_tile_size") return t.pick<std::string>({"16", "32", "64", "128"});
            return t.chance(1, 6) ? "2147483647" : std::to_string(t.range(1, 100000));
        case 's': return t.chance(1, 6) ? "null" : t.pick<std::string>({"0", "1", "4294967295", "2147483648", "77"});
        case 'r': return key == "s" ? t.pick<std::string>({"1", "1.0", "2", "3.9", "1.0000001", "3e38", "10", "1e10"}) : t.pick<std::string>({"0", "1", "0.25", "0.5", "1e-30", "0.1"});
        case 'b': return t.coin() ? "true" : "false";
        default: return key == "counting_type" ? t.pick<std::string>({"\"auto\"", "\"int8\"", "\"int16\"", "\"int32\""})
            : t.pick<std::string>({"\"MSE\"", "\"MAE\"", "\"L2\"", "\"L1\"", "\"L1+2\"", "\"berHu\""});
    }
}

std::string gen_any(Tape & t, int depth = 0)
{
    switch (t.weighted({5, 1, 1, 1, 3, 1, 1}))
    {
        case 0: return gen_number(t);
        case 1: return "null";
        case 2: return "true";
        case 3: return "false";
        case 4: return quote(t, t.pick<std::string>({"", "auto", "Auto", "int8", "int64", "int", "MSE", "mse", "L1+2", "L2 ", "berHu", "12", "true", "null", "uint8", "L1", "L3"}));
        case 5: return depth > 2 ? "[]" : "[" + gen_any(t, depth + 1) + "]";
        default: return depth > 2 ? "{}" : "{\"a\":" + gen_any(t, depth + 1) + "}";
    }
}

std::string ws(Tape & t) { return t.chance(1, 6) ? t.pick<std::string>({" ", "\n", "\t", "  \r\n"}) : ""; }

std::string gen_doc(Tape & t, bool regressor)
{
    int const n = t.weighted({2, 3, 3, 2, 1, 1, 1});
    int const bad_at = t.chance(1, 2) ? int(t.range(0, std::max(0, n - 1))) : -1;
    std::string r = ws(t) + "{" + ws(t);
    std::vector<std::string> keys;
    for (int i = 0; i < n; ++i)
    {
        Param const & p = [&]() -> Param const &
        {
            for (;;)
            {
                auto const & q = PARAMS[t.index(std::size(PARAMS))];
                if ((q.who & (regressor ? 2 : 1)) || t.chance(1, 12)) return q;
                if (t.src && t.pos > t.src->size()) return PARAMS[2];
            }
        }();
        std::string key = p.key;
        std::string value = gen_good(t, p);
        if (i == bad_at)
        {
            switch (t.weighted({6, 1, 1}))
            {
                case 0: value = (p.type == 'i' || p.type == 's' || p.type == 'r') && t.chance(2, 3) ? gen_number(t) : gen_any(t); break;
                case 1: key = t.pick<std::string>({"", "S", "n_job", "number_of_labels", "number_of_features", "thresholds", "random_state ", "seed"}); break;
                default: key += t.pick<std::string>({"s", "_", " ", "\\u0000"}); break;
            }
        }
        if (i) r += "," + ws(t);
        r += quote(t, key) + ws(t) + ":" + ws(t) + value + ws(t);
        keys.push_back(key);
    }
    return r + "}" + ws(t);
}

void mutate(Tape & t, std::string & s)
{
    int const k = t.range(1, 4);
    for (int i = 0; i < k; ++i)
    {
        auto const p = s.empty() ? 0 : t.index(s.size() + 1);
        switch (t.weighted({3, 3, 3, 1, 1, 1}))
        {
            case 0: if (p < s.size()) s.erase(p, 1 + t.index(3)); break;
            case 1: s.insert(p, 1, t.pick({'"', '{', '}', ':', ',', '0', '-', '.', 'e', '[', ']', '\\', ' ', '\0', '\n', '1', '9'})); break;
            case 2: if (p < s.size()) s[p] = char(t.draw(255)); break;
            case 3: s.resize(p); break;
            case 4: s.insert(p, s.substr(0, std::min<std::size_t>(s.size(), 10))); break;
            default: s += s.substr(p); break;
        }
    }
}

// what some readers let pass although it is not JSON
void almost(Tape & t, std::string & s)
{
    auto at = [&](std::string const & chars)
    {
        std::vector<std::size_t> where;
        for (std::size_t i = 0; i < s.size(); ++i) if (chars.find(s[i]) != std::string::npos) where.push_back(i);
        return where.empty() ? s.size() : where[t.index(where.size())];
    };
    auto behind = [&](std::string const & chars) { return std::min(s.size(), at(chars) + 1); };
    switch (t.weighted({4, 2, 2, 2, 3, 2, 1, 1, 2, 2, 1}))
    {
        case 0: s.insert(t.coin() ? behind("{:,}") : t.index(s.size() + 1), t.pick<std::string>({"/* x */", "/**/", "// x\n", "//\n", "# x\n", "/* x", "// x", "<!-- -->", "/*\"*/"})); break;
        case 1: { auto const p = at("}"); if (p < s.size()) s.insert(p, ","); break; }
        case 2: s.insert(behind("{,:"), ","); break;
        case 3: for (auto & c : s) if (c == '"') c = '\''; break;
        case 4:
        {
            auto const p = behind(":");
            auto const e = s.find_first_of(",}", p);
            s.replace(p, e == std::string::npos ? e : e - p, t.pick<std::string>({"+4", "012", "04", "4.", ".5", "4.e1", "4e", "4e+", "- 4", "0x10", "NaN", "nan", "Infinity", "-Infinity", "inf", "True", "TRUE", "None", "nul",
                "undefined", "1_000", "4f", "4 4", "--4", "'auto'", "auto", "4;", "(4)", "-", "", "tru", "\"4", "1e5.0", "00", "-012", "4L"}));
            break;
        }
        case 5: s.insert(behind("\""), t.pick<std::string>({"\x01", "\n", "\t", "\xff", "\xc0\xaf", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\x80", "\xc3", "\\x41", "\\u12", "\\ud800", "\\udc00",
            "\\ud800\\u0041", "\\'", "\\a", "\\u00e9", "\\ud83d\\ude00", "\xc3\xa9", "\x7f", "\\0", "\\U00000041"})); break;
        case 6: s.insert(0, t.pick<std::string>({"\xef\xbb\xbf", "\xef\xbb", "\xff\xfe", "\xc2\xa0", "\x0b", "\f", ")]}',\n", "json="})); break;
        case 7: s.insert(t.coin() ? s.size() : behind("{:,}"), t.pick<std::string>({"\x0b", "\f", "\xc2\xa0", "\xe2\x80\xa8", "\x1a", "\b"})); break;
        case 8: s += t.pick<std::string>({";", ",", "}", "]", "{}", " x", "null", "\n{\"s\":2}", "0", "\"", "\\"}); break;
        case 9: { auto const p = at("\""); auto const e = s.find('"', std::min(p + 1, s.size())); if (e != std::string::npos) { s.erase(e, 1); s.erase(p, 1); } break; } // key without quotes
        default: s += std::string(1, '\0') + t.pick<std::string>({"", "x", "{", "{}"}); break;
    }
}

template<typename T>
void check_result(Either<status_message_t, T> const & e, Verdict v, std::string const & text, char const * who)
{
    if (e.isLeft)
    {
        PBT_CHECK(e.leftValue.first == S_BAD_JSON, who << " status " << e.leftValue.first << " for " << text);
        PBT_CHECK(v != Verdict::Accept, who << " refused a valid document (" << e.leftValue.second << "): " << text);
    }
    else
    {
        PBT_CHECK(v != Verdict::Reject, who << " accepted an invalid document: " << text);
    }
}

void compare_params(params_t const & p, std::map<std::string, std::string> const & want, std::string const & text, char const * who)
{
    auto const got = params_map(p);
    for (auto const & kv : want)
    {
        auto it = got.find(kv.first);
        PBT_CHECK(it != got.end(), who << ": parameter " << kv.first << " is missing for " << text);
        if (kv.second == "*")
            PBT_CHECK(it->second.substr(0, 2) == "1:", who << ": no random seed was drawn for " << text << ", random_state is " << it->second);
        else
            PBT_CHECK(it->second == kv.second, who << ": parameter " << kv.first << " is " << it->second << ", expected " << kv.second << " for " << text);
    }
}

void run(Tape & t, Ctx & ctx)
{
    bool const regressor = t.coin();
    int const mode = t.weighted({10, 5, 1, 1, 4});
    std::string text;
    if (mode == 0) text = gen_doc(t, regressor);
    else if (mode == 1) { text = gen_doc(t, regressor); mutate(t, text); }
    else if (mode == 4) { text = gen_doc(t, regressor); almost(t, text); }
    else if (mode == 2)
    {
        if (t.coin()) text = gen_any(t);
        else for (int n = t.range(0, 40); n > 0; --n) text += char(t.draw(255));
    }
    else
    {
        // nesting
        int const depth = t.pick({10, 1000, 20000, 200000});
        bool const closed = t.coin();
        bool const arr = t.coin();
        text = t.coin() ? "" : "{\"s\":";
        bool const wrapped = !text.empty();
        for (int i = 0; i < depth; ++i) text += arr ? "[" : "{\"a\":";
        if (closed)
        {
            if (!arr) text += "1";
            text.append(depth, arr ? ']' : '}');
            if (wrapped) text += "}";
        }
    }
    ctx.desc << (regressor ? "regressor " : "classifier ") << text.substr(0, 400);

    std::map<std::string, std::string> want;
    auto const doc = jtext::read(text);
    auto const v = judge_text(doc, regressor, want);
    auto const shown = text.substr(0, 300);
    if (regressor)
    {
        auto const p = make_regressor_params_from_json(text);
        check_result(p, v, shown, "make_regressor_params_from_json");
        if (!p.isLeft) compare_params(p.rightValue, want, shown, "make_regressor_params_from_json");
        auto const a = RC::from_json(text);
        check_result(a, p.isLeft ? Verdict::Reject : Verdict::Accept, shown, RC::name());
        if (!a.isLeft) compare_params(a.rightValue.read_params(), want, shown, RC::name());
        auto const b = RB::from_json(text);
        check_result(b, p.isLeft ? Verdict::Reject : Verdict::Accept, shown, RB::name());
        if (!b.isLeft) compare_params(b.rightValue.read_params(), want, shown, RB::name());
    }
    else
    {
        auto const p = make_classifier_params_from_json(text);
        check_result(p, v, shown, "make_classifier_params_from_json");
        if (!p.isLeft) compare_params(p.rightValue, want, shown, "make_classifier_params_from_json");
        auto const a = CC::from_json(text);
        check_result(a, p.isLeft ? Verdict::Reject : Verdict::Accept, shown, CC::name());
        if (!a.isLeft) compare_params(a.rightValue.read_params(), want, shown, CC::name());
        auto const b = CB::from_json(text);
        check_result(b, p.isLeft ? Verdict::Reject : Verdict::Accept, shown, CB::name());
        if (!b.isLeft) compare_params(b.rightValue.read_params(), want, shown, CB::name());
    }
    ctx.sub_evaluations = 3;
    ctx.label(v == Verdict::Accept ? "must be accepted" : v == Verdict::Reject ? "must be refused" : "either (weaker reading)");
    ctx.label(mode == 0 ? "document" : mode == 1 ? "damaged document" : mode == 2 ? "any text" : mode == 3 ? "deep nesting" : "almost JSON");
    ctx.nontrivial = doc.valid && doc.object && !doc.members.empty();
    if (ctx.nontrivial) ctx.label(v == Verdict::Reject ? "object, refused" : "object, accepted");
    ctx.key = std::hash<std::string>{}(text) | 1;
}

} // namespace

pbt::Property const & pbt::property()
{
    static Property const p{"C08", run, 150000, 4000000, 8, 60,
        "distinct texts which are non-empty JSON objects, so that the verdict depends on keys and values",
        {"syntax is judged by a strict JSON reader of the check, keys, types and ranges by an independent table",
         "a byte order mark in front, a zero byte behind the document, numbers beyond double and nesting deeper than 30 may be accepted or refused",
         "booleans given for numbers, integers written as reals, C1 outside [0, 1] and parameters of the other kind of estimator may be accepted or refused"}};
    return p;
}
