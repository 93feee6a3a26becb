// C22, C23: the command line grammar and the conversion of values.
#include <teiacare/sdk/argparse/argument_parser.hpp>

#include <charconv>
#include <cstdint>
#include <filesystem>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>

#include "seq.h"

using seq::Ctx;
using seq::show;

namespace
{
// ------------------------------------------------------------------ reference conversions
using i128 = __int128;
bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
bool digit(char c) { return c >= '0' && c <= '9'; }
struct Int { bool any; bool neg; i128 value; size_t end; };
Int scan(const std::string& s)
{
    size_t i = 0;
    while (i < s.size() && space(s[i])) ++i;
    Int r{false, false, 0, 0};
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) r.neg = s[i++] == '-';
    for (; i < s.size() && digit(s[i]); ++i)
    {
        r.any = true;
        if (r.value < static_cast<i128>(1) << 100) r.value = r.value * 10 + (s[i] - '0');
    }
    r.end = i;
    if (r.neg) r.value = -r.value;
    return r;
}
template <class T> struct Ref;
// int: the number the text starts with
template <> struct Ref<int>
{
    static std::optional<int> get(const std::string& s)
    {
        Int r = scan(s);
        if (!r.any || r.value < INT32_MIN || r.value > INT32_MAX) return {};
        return static_cast<int>(r.value);
    }
};
// other integers: the whole text
template <class T> struct RefInt
{
    static std::optional<T> get(const std::string& s)
    {
        Int r = scan(s);
        if (!r.any || r.end != s.size() || r.value < std::numeric_limits<T>::min() || r.value > static_cast<i128>(std::numeric_limits<T>::max())) return {};
        return static_cast<T>(r.value);
    }
};
template <> struct Ref<long> : RefInt<long> {};
template <> struct Ref<long long> : RefInt<long long> {};
template <> struct Ref<short> : RefInt<short> {};
template <> struct Ref<unsigned> : RefInt<unsigned> {};
template <> struct Ref<unsigned short> : RefInt<unsigned short> {};
template <> struct Ref<unsigned long long> : RefInt<unsigned long long> {};
template <> struct Ref<bool> : RefInt<bool> {};
template <class T> struct RefFloat
{
    static std::optional<T> get(const std::string& s)
    {
        size_t i = 0;
        while (i < s.size() && space(s[i])) ++i;
        bool neg = false, any = false;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
        size_t b = i;
        for (; i < s.size() && digit(s[i]); ++i) any = true;
        if (i < s.size() && s[i] == '.')
        {
            ++i;
            for (; i < s.size() && digit(s[i]); ++i) any = true;
        }
        if (!any) return {};
        std::string m = s.substr(b, i - b);
        if (i < s.size() && s[i] == 'e')
        {
            size_t j = i + 1;
            std::string e = "e";
            if (j < s.size() && (s[j] == '+' || s[j] == '-')) { if (s[j] == '-') e += '-'; ++j; }
            size_t k = j;
            for (; k < s.size() && digit(s[k]); ++k) e += s[k];
            if (k > j) m += e;
        }
        T v{};
        auto r = std::from_chars(m.data(), m.data() + m.size(), v);
        if (r.ec != std::errc()) return {};
        return neg ? -v : v;
    }
};
template <> struct Ref<float> : RefFloat<float> {};
template <> struct Ref<double> : RefFloat<double> {};
template <> struct Ref<std::string> { static std::optional<std::string> get(const std::string& s) { return s; } };
template <> struct Ref<std::filesystem::path> { static std::optional<std::filesystem::path> get(const std::string& s) { return std::filesystem::path(s); } };
template <> struct Ref<char>
{
    static std::optional<char> get(const std::string& s)
    {
        size_t i = 0;
        while (i < s.size() && space(s[i])) ++i;
        if (i + 1 != s.size()) return {};
        return s[i];
    }
};
template <class E> struct Ref<std::vector<E>>
{
    static std::optional<std::vector<E>> get(const std::string& s)
    {
        std::vector<E> out;
        size_t i = 0;
        while (i < s.size())
        {
            size_t j = std::min(s.find(',', i), s.size());
            auto e = Ref<E>::get(s.substr(i, j - i));
            if (!e) return {};
            out.push_back(*e);
            i = j + 1;
        }
        return out;
    }
};
template <class T> std::string str(const T& v) { std::ostringstream o; o.precision(20); o << v; return o.str(); }
template <class E> std::string str(const std::vector<E>& v) { std::string o = "["; for (auto& e : v) o += str(e) + ";"; return o + "]"; }
template <class T> bool same(const T& a, const T& b) { return a == b; }
bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
bool same(float a, float b) { return memcmp(&a, &b, sizeof a) == 0; }
template <class T> T start_value();
template <> int start_value() { return 77; }
template <> long start_value() { return 77; }
template <> long long start_value() { return 77; }
template <> short start_value() { return 77; }
template <> unsigned start_value() { return 77; }
template <> unsigned short start_value() { return 77; }
template <> unsigned long long start_value() { return 77; }
template <> bool start_value() { return true; }
template <> float start_value() { return 7.5f; }
template <> double start_value() { return 7.5; }
template <> char start_value() { return 'q'; }
template <> std::string start_value() { return "start"; }
template <> std::filesystem::path start_value() { return "start"; }
template <> std::vector<int> start_value() { return {7, 7}; }
template <> std::vector<double> start_value() { return {7.5}; }
template <> std::vector<std::string> start_value() { return {"start"}; }

// one value given to one argument object, first alone and then again on top of it
template <class T, class Arg> void convert_one(Ctx& C, Arg& arg, T& var, bool& given, const std::string& s, const char* kind, const std::function<bool(const T&)>& valid = {})
{
    auto want = Ref<T>::get(s);
    if (want && valid && !valid(*want)) want.reset();
    const T before = var;
    std::string err;
    bool threw = false;
    C.exec();
    try
    {
        arg.parse(s);
    }
    catch (const std::exception& e)
    {
        threw = true;
        err = e.what();
    }
    CHECK(C, threw == !want, "%s %s is %s instead of %s", kind, show(s).c_str(), threw ? "rejected" : ("taken as " + str(var)).c_str(), want ? ("taken as " + str(*want)).c_str() : "rejected");
    if (want)
    {
        given = true;
        CHECK(C, same(var, *want), "%s %s is taken as %s instead of %s", kind, show(s).c_str(), str(var).c_str(), str(*want).c_str());
    }
    else
    {
        CHECK(C, same(var, before), "%s: the rejected value %s changes the variable from %s to %s", kind, show(s).c_str(), str(before).c_str(), str(var).c_str());
        CHECK(C, err.find("the-name") != std::string::npos, "%s: the error for %s does not name the argument: %s", kind, show(s).c_str(), err.c_str());
    }
    CHECK(C, arg.is_parsed() == given, "%s: is_parsed is %d after %s", kind, arg.is_parsed(), show(s).c_str());
    C.outcome(want ? str(*want) : std::string("rejected"));
}
template <class T> void convert_all(Ctx& C, const std::string& s, const char* kind)
{
    C.at_text(std::string(kind) + " " + show(s));
    C.state();
    {
        T var{};
        tc::sdk::optional_argument<T> a("the-name", 'n', var, start_value<T>());
        CHECK(C, same(var, start_value<T>()), "%s: the default is %s", kind, str(var).c_str());
        bool given = false;
        convert_one<T>(C, a, var, given, s, kind);
    }
    {
        T var = start_value<T>();
        tc::sdk::positional_argument<T> a("the-name", var);
        bool given = false;
        convert_one<T>(C, a, var, given, s, kind);
    }
}
void strings(const std::string& alpha, int L, const std::function<void(const std::string&)>& f)
{
    std::function<void(std::string)> go = [&](std::string s) {
        f(s);
        if (static_cast<int>(s.size()) < L)
            for (char c : alpha) go(s + c);
    };
    go("");
}
template <class T> void conversions(Ctx& C, const char* kind, const std::string& alpha, int L)
{
    if (C.thorough) ++L;
    strings(alpha, L, [&](const std::string& s) { if (C.mine()) convert_all<T>(C, s, kind); });
    C.sample(std::string(kind) + ": all strings up to length " + std::to_string(L) + " over '" + alpha + "'");
}
std::string dec(i128 v)
{
    bool n = v < 0;
    std::string o;
    unsigned __int128 u = n ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
    do o.insert(0, 1, static_cast<char>('0' + static_cast<int>(u % 10))); while (u /= 10);
    return n ? "-" + o : o;
}
void ranges(Ctx& C)
{
    std::vector<std::string> mags;
    for (int b : {0, 7, 8, 15, 16, 31, 32, 63, 64, 65})
        for (int d = -2; d <= 2; ++d)
            for (int sg : {1, -1}) mags.push_back(dec(sg * ((static_cast<i128>(1) << b) + d)));
    for (const char* s : {"99999999999999999999999999", "1e308", "1.8e308", "1e309", "-1.8e308", "1e-400", "3.4028234e38", "3.5e38", "-3.5e38", "1e-37", "1e-46", "16777217", "0.1", "0.30000000000000004", "123456789.123456789"}) mags.push_back(s);
    for (auto& m : mags)
        for (const char* pre : {"", " ", "+", "0", "\t"})
            for (const char* suf : {"", " ", "x", ".", ","})
            {
                if (!C.mine()) continue;
                std::string s = pre + m + suf;
                convert_all<int>(C, s, "int");
                convert_all<long>(C, s, "long");
                convert_all<long long>(C, s, "long long");
                convert_all<short>(C, s, "short");
                convert_all<unsigned>(C, s, "unsigned");
                convert_all<unsigned short>(C, s, "unsigned short");
                convert_all<unsigned long long>(C, s, "unsigned long long");
                convert_all<bool>(C, s, "bool");
                convert_all<double>(C, s, "double");
                if (m.find("-46") == std::string::npos) convert_all<float>(C, s, "float");
                convert_all<std::vector<int>>(C, s + ",3", "vector<int>");
            }
    C.sample("values around the limits of every integer width");
}
// all sequences of values for one argument, with a validator: what is refused leaves no trace
void histories(Ctx& C)
{
    const std::vector<std::string> vals{"2", "3", "-4", "x", "", "99999999999", "10"};
    const int L = C.thorough ? 5 : 4;
    for (int mode = 0; mode < 4; ++mode)
        for (long n = 0, all = [&] { long k = 1; for (int i = 0; i < L; ++i) k *= static_cast<long>(vals.size()); return k; }(); n < all; ++n)
        {
            if (!C.mine()) continue;
            C.at("validator %lld, sequence %lld", mode, n);
            C.state();
            int var = 0;
            tc::sdk::optional_argument<int> a("the-name", var, 6);
            std::function<bool(const int&)> valid;
            int calls = 0, last = 0;
            if (mode)
            {
                valid = [](const int& v) { return v % 2 == 0; };
                auto* r = a.set_validator([&, mode](const int& v) {
                    ++calls;
                    last = v;
                    if (v % 2 == 0) return true;
                    if (mode == 2) throw std::runtime_error("the-name refused");
                    if (mode == 3) throw std::invalid_argument("the-name refused");
                    return false;
                });
                CHECK(C, r == &a, "set_validator returns another argument");
            }
            bool given = false;
            long k = n;
            for (int i = 0; i < L; ++i, k /= static_cast<long>(vals.size()))
            {
                const std::string& s = vals[static_cast<size_t>(k) % vals.size()];
                calls = 0;
                convert_one<int>(C, a, var, given, s, "int with validator", valid);
                auto w = Ref<int>::get(s);
                CHECK(C, !mode || (w ? calls >= 1 && last == *w : calls == 0), "the validator of %s was called %d times, last with %d", show(s).c_str(), calls, last);
            }
        }
    C.sample("validator refusing odd values: all sequences of " + std::to_string(L) + " values");
}
// the same for lists, whose conversion can fail half way, and strings
void list_histories(Ctx& C)
{
    const std::vector<std::string> vals{"1,2", "3", "1,x,2", "", "4,", ",", "x", "5,6,7"};
    const int L = 3;
    long all = 1;
    for (int i = 0; i < L; ++i) all *= static_cast<long>(vals.size());
    for (int mode = 0; mode < 2; ++mode)
        for (long n = 0; n < all; ++n)
        {
            if (!C.mine()) continue;
            C.at("lists: validator %lld, sequence %lld", mode, n);
            C.state();
            using V = std::vector<int>;
            V var;
            tc::sdk::optional_argument<V> a("the-name", 'n', var, V{9});
            std::function<bool(const V&)> valid;
            if (mode)
            {
                valid = [](const V& v) { return v.size() != 2; };
                a.set_validator(valid);
            }
            V pvar{1};
            tc::sdk::positional_argument<V> p("the-name", pvar);
            CHECK(C, pvar.empty(), "a positional starts with %s", str(pvar).c_str());
            std::string svar = "x";
            tc::sdk::optional_argument<std::string> sa("the-name", svar);
            CHECK(C, svar.empty(), "an option without default starts with %s", svar.c_str());
            bool given = false, pgiven = false, sgiven = false;
            long k = n;
            for (int i = 0; i < L; ++i, k /= static_cast<long>(vals.size()))
            {
                const std::string& s = vals[static_cast<size_t>(k) % vals.size()];
                convert_one<V>(C, a, var, given, s, "list", valid);
                convert_one<V>(C, p, pvar, pgiven, s, "positional list");
                convert_one<std::string>(C, sa, svar, sgiven, s, "string");
            }
        }
    C.sample("lists failing half way");
}

const std::string NUM = "019-+.e, a";
seq::Reg q1("C23/int", 8, [](Ctx& C) { conversions<int>(C, "int", NUM + "2", 4); }, "all strings up to length 4 over 0 1 2 9 - + . e , space a; optional and positional arguments");
seq::Reg q2("C23/double", 8, [](Ctx& C) { conversions<double>(C, "double", "019-+.e ,", 5); }, "all strings up to length 5");
seq::Reg q3("C23/float", 8, [](Ctx& C) { conversions<float>(C, "float", "019-+.e ,", 4); }, "all strings up to length 4");
seq::Reg q4("C23/integers", 8, [](Ctx& C) {
    conversions<long>(C, "long", NUM, 4);
    conversions<unsigned>(C, "unsigned", NUM, 4);
    conversions<unsigned long long>(C, "unsigned long long", "09-+ a", 4);
    conversions<short>(C, "short", "39-+ a", 5);
    conversions<bool>(C, "bool", "012-+ a", 4);
    conversions<char>(C, "char", "a 0,-\t", 4);
}, "all strings up to length 4-5 for the types read from streams");
seq::Reg q5("C23/text", 8, [](Ctx& C) {
    conversions<std::string>(C, "string", "a0 ,=-\"\\", 4);
    conversions<std::filesystem::path>(C, "path", "a. /\\", 5);
    conversions<std::vector<std::string>>(C, "vector<string>", "a, -0", 5);
    conversions<std::vector<int>>(C, "vector<int>", "19, -a", 5);
    conversions<std::vector<double>>(C, "vector<double>", "1.,- e", 4);
}, "strings, paths and lists");
seq::Reg q6("C23/ranges", 8, ranges, "values around the limits of every integer width and of float and double, with prefixes and suffixes");
seq::Reg q7("C23/histories", 8, histories, "all sequences of 4 values with no validator, one that returns false and two that throw");
seq::Reg q8("C23/list-histories", 4, list_histories, "all sequences of 3 values for lists");

// ------------------------------------------------------------------ C22: the grammar
enum class Res { success, error, quit };
struct Arg // a declared argument of the reference
{
    enum Kind { positional, option, flag } kind;
    std::string lng;
    std::string shrt;
    std::string env;
    bool required;
    std::function<bool(const std::string&)> take; // false: refused
    bool given = false;
};
struct Model
{
    std::vector<Arg*> args;
    bool printed_help = false, printed_version = false;
    Res run(const std::vector<std::string>& v, const std::map<std::string, std::string>& env)
    {
        auto give = [](Arg* a, const std::string& s) { if (!a->take(s)) return false; a->given = true; return true; };
        for (auto k : {Arg::option, Arg::flag})
            for (Arg* a : args)
                if (a->kind == k && !a->env.empty() && env.count(a->env) && !give(a, env.at(a->env))) return Res::error;
        std::vector<Arg*> pos;
        for (Arg* a : args)
            if (a->kind == Arg::positional) pos.push_back(a);
        size_t next = 0;
        for (size_t i = 0; i < v.size(); ++i)
        {
            const std::string& t = v[i];
            if (t.empty() || t[0] != '-')
            {
                if (next == pos.size() || !give(pos[next++], t)) return Res::error;
                continue;
            }
            size_t dashes = t.size() > 1 && t[1] == '-' ? 2 : 1;
            std::string name = t.substr(dashes), value;
            bool attached = false;
            if (size_t e = name.find('='); e != std::string::npos)
            {
                value = name.substr(e + 1);
                name = name.substr(0, e);
                attached = true;
            }
            if (name.empty() || name[0] == '-') return Res::error;
            if (name == "help" || name == "h") { printed_help = true; return Res::quit; }
            if (name == "version" || name == "v") { printed_version = true; return Res::quit; }
            Arg* hit = nullptr;
            for (auto k : {Arg::option, Arg::flag})
                for (Arg* a : args)
                    if (!hit && a->kind == k && (name == a->lng || name == a->shrt)) hit = a;
            if (!hit) return Res::error;
            if (hit->kind == Arg::flag) { give(hit, ""); continue; }
            if (!attached)
            {
                if (++i == v.size()) return Res::error;
                value = v[i];
            }
            if (!give(hit, value)) return Res::error;
        }
        for (Arg* a : args)
            if (a->required && !a->given) return Res::error;
        return Res::success;
    }
};
// captures what the parser prints
struct Capture
{
    std::ostringstream out, err;
    std::streambuf *o, *e;
    Capture() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
// what a main() does that uses the macro
int by_macro(const tc::sdk::argument_parser& p, int argc, char** argv)
{
    TC_PARSE_CLI(p, argc, argv)
    return -77;
}
Res call(const tc::sdk::argument_parser& p, const std::vector<std::string>& v, std::string& out, std::string& err)
{
    // exact copies, so that reading beyond an argument or beyond argv is caught
    std::vector<std::unique_ptr<char[]>> mem;
    auto argv = std::make_unique<char*[]>(v.size() + 2); // (and a null pointer at the end, as for main)
    auto put = [&](size_t i, const std::string& s) {
        mem.push_back(std::make_unique<char[]>(s.size() + 1));
        memcpy(mem.back().get(), s.c_str(), s.size() + 1);
        argv[i] = mem.back().get();
    };
    put(0, "-h");
    for (size_t i = 0; i < v.size(); ++i) put(i + 1, v[i]);
    Capture cap;
    // every other list goes through TC_PARSE_CLI
    size_t odd = v.size();
    for (auto& s : v) odd += s.size();
    const int argc = static_cast<int>(v.size()) + 1;
    const int code = odd % 2 ? by_macro(p, argc, argv.get()) : 0;
    const auto r = odd % 2 ? (code == -77 ? tc::sdk::parse_result::success : code == EXIT_SUCCESS ? tc::sdk::parse_result::quit : tc::sdk::parse_result::error) : p.parse(argc, argv.get());
    out = cap.out.str();
    err = cap.err.str();
    return r == tc::sdk::parse_result::success ? Res::success : r == tc::sdk::parse_result::quit ? Res::quit : Res::error;
}
const char* name(Res r) { return r == Res::success ? "success" : r == Res::quit ? "quit" : "error"; }
std::string list(const std::vector<std::string>& v, const std::map<std::string, std::string>& env)
{
    std::string o;
    for (auto& [k, e] : env) o += k + "=" + show(e) + " ";
    o += "args:";
    for (auto& s : v) o += " " + show(s);
    return o;
}
void set_env(const std::map<std::string, std::string>& env)
{
    for (const char* n : {"TCENV_A", "TCENV_B", "TCENV_C"})
        if (env.count(n)) setenv(n, env.at(n).c_str(), 1);
        else unsetenv(n);
}
void verdict(Ctx& C, const std::vector<std::string>& v, const std::map<std::string, std::string>& env, Res want, Res got, const Model& m, const std::string& out, const std::string& err)
{
    CHECK(C, want == got, "parse returns %s instead of %s for %s", name(got), name(want), list(v, env).c_str());
    if (got == Res::error) CHECK(C, !err.empty(), "the error of %s is not reported", list(v, env).c_str());
    if (got == Res::quit) CHECK(C, out.find("theprog v9.8.7") != std::string::npos, "%s does not print the version", list(v, env).c_str());
    if (m.printed_help)
        for (Arg* a : m.args)
            CHECK(C, out.find(a->kind == Arg::positional ? a->lng : "--" + a->lng) != std::string::npos && (a->shrt.empty() || out.find("-" + a->shrt + ", --" + a->lng) != std::string::npos) && (a->env.empty() || out.find(a->env) != std::string::npos), "the help does not describe %s: %s", a->lng.c_str(), out.c_str());
}
template <class T> std::function<bool(const std::string&)> taker(T& var, std::function<bool(const T&)> valid = {})
{
    return [&var, valid](const std::string& s) {
        auto r = Ref<T>::get(s);
        if (!r || (valid && !valid(*r))) return false;
        var = *r;
        return true;
    };
}
using Env = std::map<std::string, std::string>;
void config_a(Ctx& C, const std::vector<std::string>& v, const Env& env)
{
    C.exec();
    int pos = -1, num = -1, mpos = 0, mnum = 7;
    std::string s = "?", ms = "d";
    bool flag = true, ex = true, mflag = false, mex = false;
    tc::sdk::argument_parser p("theprog", "v9.8.7", "thedescription");
    p.add_positional("pos", pos, "first positional");
    p.add_option("num", 'n', num, 7, "a number");
    p.add_option("str", s, std::string("d"), "a string");
    p.add_flag("flag", 'f', flag, "a flag");
    p.add_flag("ex", ex);
    Arg a{Arg::positional, "pos", "", "", true, taker(mpos)}, b{Arg::option, "num", "n", "", false, taker(mnum)}, c{Arg::option, "str", "", "", false, taker(ms)};
    Arg d{Arg::flag, "flag", "f", "", false, [&](const std::string&) { return mflag = true; }}, e{Arg::flag, "ex", "", "", false, [&](const std::string&) { return mex = true; }};
    Model m{{&a, &b, &c, &d, &e}};
    Res want = m.run(v, env);
    std::string out, err;
    Res got = call(p, v, out, err);
    verdict(C, v, env, want, got, m, out, err);
    if (got == Res::success)
    {
        CHECK(C, pos == mpos && num == mnum && s == ms && flag == mflag && ex == mex, "%s gives pos=%d num=%d str=%s flag=%d ex=%d instead of pos=%d num=%d str=%s flag=%d ex=%d", list(v, env).c_str(), pos, num, s.c_str(), flag, ex, mpos, mnum, ms.c_str(), mflag, mex);
        C.outcome(str(pos) + "," + str(num) + "," + s + "," + str(flag) + str(ex));
    }
    else
        C.outcome(static_cast<uint64_t>(got));
}
void config_b(Ctx& C, const std::vector<std::string>& v, const Env& env)
{
    C.exec();
    std::string req = "?", mreq = "none";
    std::vector<int> lst, mlst{1, 2};
    int num = -1, mnum = 4;
    bool flag = true, mflag = false;
    tc::sdk::argument_parser p("theprog", "v9.8.7");
    p.add_option("req", 'r', req, std::string("none"), "required", true, "TCENV_A");
    p.add_option("lst", 'l', lst, std::vector<int>{1, 2}, "list");
    auto o = std::make_unique<tc::sdk::optional_argument<int>>("num", num, 4, "even", false, "TCENV_B");
    o->set_validator([](const int& n) { return n % 2 == 0; });
    p.add_option(std::move(o));
    p.add_flag("flag", 'f', flag, "flag", "TCENV_C");
    Arg a{Arg::option, "req", "r", "TCENV_A", true, taker(mreq)}, b{Arg::option, "lst", "l", "", false, taker(mlst)};
    Arg c{Arg::option, "num", "", "TCENV_B", false, taker<int>(mnum, [](const int& n) { return n % 2 == 0; })}, d{Arg::flag, "flag", "f", "TCENV_C", false, [&](const std::string&) { return mflag = true; }};
    Model m{{&a, &b, &c, &d}};
    Res want = m.run(v, env);
    std::string out, err;
    Res got = call(p, v, out, err);
    verdict(C, v, env, want, got, m, out, err);
    if (got == Res::success)
    {
        CHECK(C, req == mreq && lst == mlst && num == mnum && flag == mflag, "%s gives req=%s lst=%s num=%d flag=%d instead of req=%s lst=%s num=%d flag=%d", list(v, env).c_str(), req.c_str(), str(lst).c_str(), num, flag, mreq.c_str(), str(mlst).c_str(), mnum, mflag);
        C.outcome(req + "," + str(lst) + str(num) + str(flag));
    }
    else
        C.outcome(static_cast<uint64_t>(got));
}
void config_c(Ctx& C, const std::vector<std::string>& v, const Env& env)
{
    C.exec();
    std::string p1 = "?", m1;
    double p2 = -1, m2 = 0;
    std::vector<std::string> p3{"?"}, m3;
    bool flag = true, mflag = false;
    double opt = -1, mopt = 0.5;
    tc::sdk::argument_parser p("theprog", "v9.8.7", "three positionals");
    p.add_positional("one", p1);
    p.add_positional("two", p2);
    p.add_option("opt", 'o', opt, 0.5, "", true);
    p.add_positional("three", p3);
    p.add_flag("oo", 'x', flag);
    Arg a{Arg::positional, "one", "", "", true, taker(m1)}, b{Arg::positional, "two", "", "", true, taker(m2)}, c{Arg::option, "opt", "o", "", true, taker(mopt)}, d{Arg::positional, "three", "", "", true, taker(m3)}, e{Arg::flag, "oo", "x", "", false, [&](const std::string&) { return mflag = true; }};
    Model m{{&a, &b, &c, &d, &e}};
    Res want = m.run(v, env);
    std::string out, err;
    Res got = call(p, v, out, err);
    verdict(C, v, env, want, got, m, out, err);
    if (got == Res::success)
    {
        CHECK(C, p1 == m1 && p2 == m2 && p3 == m3 && opt == mopt && flag == mflag, "%s gives one=%s two=%g three=%s opt=%g oo=%d instead of %s %g %s %g %d", list(v, env).c_str(), p1.c_str(), p2, str(p3).c_str(), opt, flag, m1.c_str(), m2, str(m3).c_str(), mopt, mflag);
        C.outcome(p1 + "," + str(p2) + str(p3) + str(opt) + str(flag));
    }
    else
        C.outcome(static_cast<uint64_t>(got));
}
void lists(const std::vector<std::string>& alpha, int L, const std::function<void(const std::vector<std::string>&)>& f)
{
    std::vector<std::string> v;
    std::function<void()> go = [&] {
        f(v);
        if (static_cast<int>(v.size()) == L) return;
        for (auto& t : alpha)
        {
            v.push_back(t);
            go();
            v.pop_back();
        }
    };
    go();
}
// const char* values must stay readable after the parsing
void config_cstr(Ctx& C, const std::vector<std::string>& v)
{
    C.exec();
    const char *pos = "?", *opt = nullptr;
    std::vector<const char*> lst, plst;
    std::string mpos, mopt = "def";
    std::vector<std::string> mlst{"d"}, mplst;
    tc::sdk::argument_parser p("theprog", "v9.8.7");
    p.add_positional("pos", pos);
    p.add_option<const char*>("opt", 'o', opt, "def");
    p.add_option("lst", 'l', lst, std::vector<const char*>{"d"}, "", false, "TCENV_A");
    p.add_positional("plst", plst);
    Arg a{Arg::positional, "pos", "", "", true, taker(mpos)}, b{Arg::option, "opt", "o", "", false, taker(mopt)}, c{Arg::option, "lst", "l", "TCENV_A", false, taker(mlst)}, d{Arg::positional, "plst", "", "", true, taker(mplst)};
    Model m{{&a, &b, &c, &d}};
    Env env{{"TCENV_A", "e1,a value from the environment,"}};
    set_env(env);
    Res want = m.run(v, env);
    std::string out, err;
    Res got = call(p, v, out, err);
    setenv("TCENV_A", "overwritten,overwritten,overwritten,overwritten", 1);
    verdict(C, v, env, want, got, m, out, err);
    if (got != Res::success) return C.outcome(static_cast<uint64_t>(got));
    auto text = [](const std::vector<const char*>& l) { return std::vector<std::string>(l.begin(), l.end()); };
    CHECK(C, mpos == pos && mopt == opt && mlst == text(lst) && mplst == text(plst), "%s gives pos=%s opt=%s lst=%s plst=%s as const char*", list(v, env).c_str(), show(pos).c_str(), show(opt).c_str(), str(text(lst)).c_str(), str(text(plst)).c_str());
    C.outcome(mpos + "," + mopt + str(mlst) + str(mplst));
}
seq::Reg q9("C23/c-strings", 4, [](Ctx& C) {
    lists({"x", "a value longer than any small buffer", "a,bb,,ccc", "-o=", "-o=x", "--opt", "--lst=b,another value longer than any buffer", "-l=", ""}, C.thorough ? 5 : 4, [&](const std::vector<std::string>& v) {
        if (!C.mine()) return;
        C.at_text(list(v, {}));
        C.state();
        config_cstr(C, v);
    });
    C.sample("const char* values and lists of them");
}, "all argument lists up to length 4 over 9 tokens for const char* options and positionals, alone and in lists");
void grammar(Ctx& C, void (*config)(Ctx&, const std::vector<std::string>&, const Env&), const std::vector<std::string>& alpha, int L, const std::vector<Env>& envs)
{
    lists(alpha, L, [&](const std::vector<std::string>& v) {
        for (auto& e : envs)
        {
            if (!C.mine()) continue;
            C.at_text(list(v, e));
            set_env(e);
            C.state();
            config(C, v, e);
        }
    });
    C.sample("all lists of up to " + std::to_string(L) + " of " + std::to_string(alpha.size()) + " tokens, " + std::to_string(envs.size()) + " environments");
}
const std::vector<std::string> ALPHA_A{"5", "x", "", "-", "--", "---n", "--=5", "-n", "--num", "-n=3", "--num=4", "--num=", "--num=z", "-f", "--flag", "--flag=0", "-h", "--version", "--ex", "--str", "--str=a=b", "--str=", "-q", "-5", "--n=6", "-num"};
seq::Reg g1("C22/options", 8, [](Ctx& C) { grammar(C, config_a, ALPHA_A, C.thorough ? 4 : 3, {{}}); }, "all argument lists up to length 3 over 26 tokens; one positional, two options, two flags");
seq::Reg g2("C22/options-deep", 8, [](Ctx& C) {
    grammar(C, config_a, {"5", "-", "-n", "--num=4", "--num=", "-f", "--str", "--ex", "-h"}, C.thorough ? 6 : 5, {{}});
}, "all argument lists up to length 5 over 9 tokens");
seq::Reg g3("C22/environment", 8, [](Ctx& C) {
    std::vector<Env> envs;
    for (const char* a : {(const char*)nullptr, "", "x", "-h"})
        for (const char* b : {(const char*)nullptr, "", "6", "3", "zz"})
            for (const char* c : {(const char*)nullptr, "", "0"})
            {
                Env e;
                if (a) e["TCENV_A"] = a;
                if (b) e["TCENV_B"] = b;
                if (c) e["TCENV_C"] = c;
                envs.push_back(e);
            }
    grammar(C, config_b, {"-r", "--req=", "--req=a", "-l=3,4", "--lst=3,x", "--lst", "--num", "--num=8", "8", "-f", "--version", "-v=1"}, C.thorough ? 4 : 3, envs);
}, "all argument lists up to length 3 over 12 tokens in 60 environments; required option, list, validated option and flag with environment variables");
seq::Reg g4("C22/positionals", 8, [](Ctx& C) {
    grammar(C, config_c, {"1.5", "a", "b,c", "", "-o", "-o=2", "--opt=x", "--oo", "-x", "-1"}, C.thorough ? 6 : 5, {{}});
}, "all argument lists up to length 5 over 10 tokens; three positionals of different types, a required option");
// the same parser used twice, and the standard names with one and two dashes and values
seq::Reg g5("C22/names", 4, [](Ctx& C) {
    std::vector<std::string> names;
    for (const char* n : {"h", "help", "v", "version", "n", "num", "str", "f", "flag", "ex", "pos", "hel", "helpp", "nu", "H", "vv", "", "s", "p", "="})
        for (const char* d : {"", "-", "--", "---"})
            for (const char* t : {"", "=", "=1", "=1=2", " "}) names.push_back(std::string(d) + n + t);
    for (auto& a : names)
        for (auto& b : {std::vector<std::string>{}, {"5"}, {"5", "6"}, {"-f", "5"}})
        {
            if (!C.mine()) continue;
            std::vector<std::string> v{a};
            v.insert(v.end(), b.begin(), b.end());
            C.at_text(list(v, {}));
            C.state();
            config_a(C, v, {});
            v.erase(v.begin());
            v.push_back(a);
            config_a(C, v, {});
        }
}, "every spelling of declared, standard and unknown names before and after other arguments");
// long values and long lists
seq::Reg q10("C23/long", 8, [](Ctx& C) {
    std::vector<size_t> sizes;
    for (size_t k = 1; k <= 70; ++k) sizes.push_back(k);
    for (size_t k : {100, 127, 128, 129, 255, 256, 257, 500, 1000, 1023, 1024, 4096, 10000}) sizes.push_back(k);
    for (size_t k : sizes)
    {
        if (!C.mine()) continue;
        std::string zeros(k, '0'), blanks(k, ' '), as(k, 'a'), commas(k, ',');
        for (const std::string& s : {zeros + "5", "-" + zeros + "5", blanks + "5", zeros + "2147483648", zeros, zeros + "x"})
        {
            convert_all<int>(C, s, "int");
            convert_all<long>(C, s, "long");
            convert_all<unsigned>(C, s, "unsigned");
            convert_all<short>(C, s, "short");
            convert_all<unsigned long long>(C, s, "unsigned long long");
        }
        for (const std::string& s : {zeros + "1.5", "1." + zeros + "5", "1.5" + zeros, blanks + "-1.5", "0.5" + zeros + "e1"}) convert_all<double>(C, s, "double");
        for (const std::string& s : {as, as + "=" + as, blanks, as + " " + as, as + "," + as})
        {
            convert_all<std::string>(C, s, "string");
            convert_all<std::filesystem::path>(C, s, "path");
            convert_all<std::vector<std::string>>(C, s, "vector<string>");
        }
        convert_all<std::vector<std::string>>(C, commas, "vector<string>");
        std::string ints, texts, reals;
        for (size_t n = 0; n < std::min<size_t>(k, 500); ++n)
        {
            const char* sep = n ? "," : "";
            ints += sep + std::to_string(static_cast<int>(n) * 7919 - 100);
            reals += sep + std::to_string(n) + ".5";
            texts += sep + std::string(n % 40, 'b') + std::to_string(n);
        }
        for (const char* tail : {"", ",", ",x", ",3"})
        {
            convert_all<std::vector<int>>(C, ints + tail, "vector<int>");
            convert_all<std::vector<double>>(C, reals + tail, "vector<double>");
            convert_all<std::vector<std::string>>(C, texts + tail, "vector<string>");
        }
    }
    C.sample("values and lists of every length up to 70, and longer ones up to 10000");
}, "zero-padded and blank-padded numbers, texts and lists of every length up to 70 and of 13 lengths up to 10000");
// many declared arguments, whose names are prefixes and suffixes of each other, and long command lines
void config_many(Ctx& C, int npos, int nopt, int nflag, const std::string& stem, const std::vector<std::string>& v)
{
    C.at_text(std::to_string(npos) + " positionals, " + std::to_string(nopt) + " options, " + std::to_string(nflag) + " flags, " + list(v, {}));
    C.state();
    C.exec();
    const size_t P = static_cast<size_t>(npos), O = static_cast<size_t>(nopt), F = static_cast<size_t>(nflag);
    std::vector<std::string> pos(P, "?"), mpos(P, "?");
    std::vector<int> opt(O, -1), mopt(O);
    auto flag = std::make_unique<bool[]>(F + 1), mflag = std::make_unique<bool[]>(F + 1);
    std::vector<Arg> args;
    args.reserve(P + O + F);
    tc::sdk::argument_parser p("theprog", "v9.8.7");
    for (size_t i = 0; i < std::max({P, O, F}); ++i)
    {
        if (i < P)
        {
            p.add_positional("p" + std::to_string(i), pos[i]);
            args.push_back({Arg::positional, "p" + std::to_string(i), "", "", true, taker(mpos[i])});
        }
        if (i < O)
        {
            mopt[i] = static_cast<int>(i) + 100;
            p.add_option(stem + std::to_string(i), opt[i], static_cast<int>(i) + 100);
            args.push_back({Arg::option, stem + std::to_string(i), "", "", false, taker(mopt[i])});
        }
        if (i < F)
        {
            flag[i] = true;
            p.add_flag(std::to_string(i) + stem, flag[i]);
            bool& m = mflag[i];
            args.push_back({Arg::flag, std::to_string(i) + stem, "", "", false, [&m](const std::string&) { return m = true; }});
        }
    }
    Model m;
    for (auto& a : args) m.args.push_back(&a);
    Res want = m.run(v, {});
    std::string out, err;
    Res got = call(p, v, out, err);
    verdict(C, v, {}, want, got, m, out, err);
    C.outcome(static_cast<uint64_t>(got));
    if (got != Res::success) return;
    bool ok = pos == mpos && opt == mopt;
    for (size_t i = 0; i < F; ++i) ok = ok && flag[i] == mflag[i];
    CHECK(C, ok, "%s gives other values than expected", list(v, {}).c_str());
}
seq::Reg g6("C22/many", 8, [](Ctx& C) {
    set_env({});
    for (const std::string& stem : {std::string("o"), std::string(15, 'x'), std::string(16, 'y'), std::string(31, 'z'), std::string(200, 'w'), std::string("a-b_c.d")})
        for (int n : {1, 2, 3, 7, 8, 9, 12, 16, 17, 33, 65, 120})
        {
            if (!C.mine()) continue;
            auto o = [&](int i) { return stem + std::to_string(i); };
            auto f = [&](int i) { return std::to_string(i) + stem; };
            std::vector<std::string> ps, all, rev, sep;
            for (int i = 0; i < n; ++i) ps.push_back("value " + std::to_string(i));
            for (int i = 0; i < n; ++i)
            {
                all.push_back(ps[static_cast<size_t>(i)]);
                all.push_back("--" + o(i) + "=" + std::to_string(i * 3));
                all.push_back("-" + f(i));
                rev.insert(rev.begin(), "-" + o(i) + "=" + std::to_string(i * 5));
                rev.insert(rev.begin(), "--" + f(i));
                sep.insert(sep.end(), {"--" + o(i), std::to_string(-i), ps[static_cast<size_t>(i)]});
            }
            rev.insert(rev.end(), ps.begin(), ps.end());
            for (auto& v : {all, rev, sep, ps}) config_many(C, n, n, n, stem, v);
            auto with = [&](std::vector<std::string> v, std::initializer_list<std::string> more) { v.insert(v.end(), more); return v; };
            for (int i = 0; i <= n; ++i)
            {
                config_many(C, n, n, n, stem, with(ps, {"--" + o(i) + "=-7"}));
                config_many(C, n, n, n, stem, with(ps, {"--" + o(i)}));
                config_many(C, n, n, n, stem, with(ps, {"-" + f(i)}));
                config_many(C, n, n, n, stem, with(all, {"--" + o(i), "12"}));
                if (i < n)
                {
                    auto v = ps;
                    v.erase(v.begin() + i);
                    config_many(C, n, n, n, stem, v);
                    config_many(C, n, n, n, stem, with(v, {"--" + o(i), "34"}));
                    v = all;
                    v.erase(v.begin() + 3 * i);
                    config_many(C, n, n, n, stem, v);
                }
            }
            config_many(C, n, n, n, stem, with(ps, {"one more"}));
            config_many(C, 0, n, 0, stem, {});
            config_many(C, n, 0, n, stem, ps);
            // the same ones again and again
            std::vector<std::string> again = ps;
            for (int i = 0; i < n; ++i) again.insert(again.end(), {"--" + o(0) + "=" + std::to_string(i), "-" + f(0), "--" + o(n - 1), std::to_string(i + 1000)});
            config_many(C, n, n, n, stem, again);
            config_many(C, n, n, n, stem, with(again, {"--" + o(0) + "=x"}));
        }
    C.sample("up to 120 positionals, options and flags each with six name stems");
}, "up to 120 positionals, options and flags each, names up to 203 characters, given all, one at a time, one left out, in both orders and repeatedly");
seq::Reg g7("C22/long", 8, [](Ctx& C) {
    std::vector<size_t> sizes;
    for (size_t k = 1; k <= 70; ++k) sizes.push_back(k);
    for (size_t k : {100, 127, 128, 255, 256, 257, 1000, 4096, 20000}) sizes.push_back(k);
    for (size_t k : sizes)
    {
        std::string a(k, 'a'), d(k, '-'), e(k, '='), five(k, '0');
        five += "5";
        for (auto& v : std::vector<std::vector<std::string>>{{a}, {five}, {five, "--str", a}, {five, "--str=" + a}, {five, "-str=" + e}, {five, "--num=" + five}, {five, "-n", five}, {five, "--num=" + a}, {d}, {d + "n"}, {d + "=" + a}, {"5", "--" + a}, {"5", "-f" + a}, {"5", "--flag=" + a}, {"5", "--str", d}, {"5", "--str", d + a}, {"5", "-" + a + "=5"}, {"5", "--help" + a}, {"5", "--help=" + a}, {"-v=" + a}})
        {
            if (!C.mine()) continue;
            C.at_text(list(v, {}));
            C.state();
            config_a(C, v, {});
        }
    }
}, "values, names and runs of dashes of every length up to 70 and of 9 lengths up to 20000");
// ------------------------------------------------------------------------------------------------ C36
// what is printed: every list of declarations, asked for help and version, used well and wrongly
enum { P_PLAIN, P_DESC, O_LONG, O_SHORT, O_ENV, O_REQ, O_CHECKED, F_LONG, F_SHORT, F_ENV, SHAPES };
struct Decl
{
    int shape;
    std::string lng, shrt, desc, env;
    bool pos() const { return shape <= P_DESC; }
    bool opt() const { return shape >= O_LONG && shape <= O_CHECKED; }
};
std::vector<std::string> lines(const std::string& s)
{
    std::vector<std::string> r;
    std::istringstream in(s);
    for (std::string l; std::getline(in, l);) r.push_back(l);
    return r;
}
bool word_char(char c) { return std::isalnum(static_cast<unsigned char>(c)) || c == '-' || c == '_'; }
// the place of a whole word, npos if it is not there
size_t word(const std::string& s, const std::string& w, size_t from = 0)
{
    for (size_t p = s.find(w, from); p != std::string::npos; p = s.find(w, p + 1))
        if ((p == 0 || !word_char(s[p - 1])) && (p + w.size() == s.size() || !word_char(s[p + w.size()]))) return p;
    return std::string::npos;
}
// (a token can be written with its dashes)
bool named(const std::string& s, const std::string& w)
{
    auto letter = [](char c) { return std::isalnum(static_cast<unsigned char>(c)) || c == '_'; };
    for (size_t p = s.find(w); p != std::string::npos; p = s.find(w, p + 1))
        if ((p == 0 || !letter(s[p - 1])) && (p + w.size() == s.size() || !letter(s[p + w.size()]))) return true;
    return false;
}
void messages(Ctx& C, const std::vector<int>& shapes, int program)
{
    static const std::string names[] = {"prog", "a tool", "x"}, versions[] = {"1.0", "v2.3.4-rc1", ""}, about[] = {"", "Does something useful.", "First line\nsecond line, 100%"};
    const std::string &pn = names[program], &pv = versions[program], &pd = about[program];
    std::vector<Decl> d;
    std::deque<int> ints;
    std::deque<std::string> texts;
    std::deque<bool> bools;
    std::map<std::string, std::string> env;
    auto p = std::make_unique<tc::sdk::argument_parser>(pn, pv, pd);
    for (size_t i = 0; i < shapes.size(); ++i)
    {
        std::string n = std::to_string(i);
        Decl x{shapes[i], "name" + n + (i & 1 ? "-x" : "_y"), "", "", ""};
        ints.push_back(0);
        texts.emplace_back();
        bools.push_back(false);
        char c = static_cast<char>('a' + i); // (h and v are taken)
        if (x.shape == O_SHORT || x.shape == O_REQ || x.shape == F_SHORT || x.shape == F_ENV) x.shrt = std::string(1, c);
        if (x.shape != P_PLAIN && x.shape != O_LONG && x.shape != F_LONG) x.desc = "describes " + n + ", (it)";
        if (x.shape == O_ENV) x.env = "TCENV_A";
        if (x.shape == F_ENV) x.env = "TCENV_B";
        switch (x.shape)
        {
        case P_PLAIN: p->add_positional(x.lng, ints.back()); break;
        case P_DESC: p->add_positional(x.lng, texts.back(), x.desc); break;
        case O_LONG: p->add_option(x.lng, ints.back(), 4); break;
        case O_SHORT: p->add_option(x.lng, c, texts.back(), std::string("def"), x.desc); break;
        case O_ENV: p->add_option(x.lng, ints.back(), 4, x.desc, false, x.env); break;
        case O_REQ: p->add_option(x.lng, c, ints.back(), 4, x.desc, true); break;
        case O_CHECKED:
        {
            auto o = std::make_unique<tc::sdk::optional_argument<int>>(x.lng, ints.back(), 4, x.desc);
            o->set_validator([](const int& v) { return v != 3; });
            p->add_option(std::move(o));
            break;
        }
        case F_LONG: { static bool f; p->add_flag(x.lng, f); break; }
        case F_SHORT: { static bool f; p->add_flag(x.lng, c, f, x.desc); break; }
        default: { static bool f; p->add_flag(x.lng, c, f, x.desc, x.env); break; }
        }
        d.push_back(x);
    }
    std::vector<std::string> good;
    for (auto& x : d)
    {
        if (x.pos()) good.push_back(x.shape == P_PLAIN ? "5" : "text");
        if (x.shape == O_REQ) good.push_back("--" + x.lng + "=6");
    }
    std::vector<Decl> all = d;
    all.push_back({F_SHORT, "help", "h", "", ""});
    all.push_back({F_SHORT, "version", "v", "", ""});
    auto helped = [&](const std::vector<std::string>& v, const std::string& out) {
        auto L = lines(out);
        CHECK(C, !L.empty() && L[0].find(pn) == 0 && L[0].find(pv) != std::string::npos, "the help for %s does not begin with program and version: %s", list(v, env).c_str(), out.c_str());
        CHECK(C, out.find(pd) != std::string::npos, "the help for %s lacks the description: %s", list(v, env).c_str(), out.c_str());
        size_t u = 0;
        while (u < L.size() && L[u].find("Usage") == std::string::npos) ++u;
        if (u < L.size() && L[u].find("Usage: " + pn) == std::string::npos) ++u; // the line after the heading
        CHECK(C, u < L.size() && L[u].find(pn) != std::string::npos, "no usage in %s", out.c_str());
        size_t at = L[u].find(pn) + pn.size();
        for (auto& x : all)
            if (x.pos())
            {
                size_t q = word(L[u], x.lng, at);
                CHECK(C, q != std::string::npos, "the usage does not name positional %s in its place: %s", x.lng.c_str(), L[u].c_str());
                at = q + x.lng.size();
            }
            else
                CHECK(C, word(L[u], "--" + x.lng, 0) != std::string::npos, "the usage does not name --%s: %s", x.lng.c_str(), L[u].c_str());
        for (auto& x : all)
        {
            int n = 0;
            for (size_t i = u + 1; i < L.size(); ++i)
                if (word(L[i], (x.pos() ? "" : "--") + x.lng) != std::string::npos)
                {
                    ++n;
                    if (!x.shrt.empty()) CHECK(C, word(L[i], "-" + x.shrt) != std::string::npos, "the help of %s lacks its short form: %s", x.lng.c_str(), L[i].c_str());
                    else CHECK(C, L[i].find(" -" + std::string(1, static_cast<char>('a' + (&x - all.data())))) == std::string::npos, "the help of %s has a short form: %s", x.lng.c_str(), L[i].c_str());
                    CHECK(C, L[i].find(x.desc) != std::string::npos, "the help of %s lacks its description: %s", x.lng.c_str(), L[i].c_str());
                    for (auto& y : all) if (y.lng != x.lng && !y.desc.empty()) CHECK(C, L[i].find(y.desc) == std::string::npos, "the help of %s has another description: %s", x.lng.c_str(), L[i].c_str());
                    CHECK(C, x.env.empty() ? L[i].find("TCENV") == std::string::npos : word(L[i], x.env) != std::string::npos, "environment variable of %s: %s", x.lng.c_str(), L[i].c_str());
                }
            CHECK(C, n == 1, "%d lines of help for %s: %s", n, x.lng.c_str(), out.c_str());
        }
    };
    auto run = [&](const std::vector<std::string>& v, Res want, std::string& out, std::string& err) {
        C.at_text(std::to_string(shapes.size()) + " declarations, " + list(v, env));
        C.exec();
        C.step();
        Res r = call(*p, v, out, err);
        CHECK(C, r == want, "parse returns %s instead of %s for %s", name(r), name(want), list(v, env).c_str());
        C.outcome(out + "|" + err);
    };
    std::string out, err;
    auto with = [&](std::vector<std::string> a, const std::vector<std::string>& b) { a.insert(a.end(), b.begin(), b.end()); return a; };
    auto bad = [&](const std::vector<std::string>& v, const std::vector<std::string>& culprits) {
        run(v, Res::error, out, err);
        for (auto& c : culprits) CHECK(C, named(err, c), "the error of %s does not name %s: %s", list(v, env).c_str(), c.c_str(), err.c_str());
        for (auto& x : d)
        {
            bool culprit = false;
            for (auto& c : culprits) culprit = culprit || c == x.lng;
            if (!culprit) CHECK(C, word(err, x.lng) == std::string::npos, "the error of %s names %s: %s", list(v, env).c_str(), x.lng.c_str(), err.c_str());
        }
        helped(v, out);
    };
    // (what is missing: a parser remembers what it has been given, so this comes first)
    std::vector<std::string> missing_pos, missing_opt;
    for (auto& x : d)
    {
        if (x.pos()) missing_pos.push_back(x.lng);
        if (x.shape == O_REQ) missing_opt.push_back(x.lng);
    }
    if (!missing_pos.empty()) bad({}, missing_pos);
    else if (!missing_opt.empty()) bad({}, missing_opt);
    else { run({}, Res::success, out, err); CHECK(C, out.empty() && err.empty(), "a success prints %s%s", out.c_str(), err.c_str()); }
    for (auto& h : {"--help", "-h", "-help", "--h", "--help=1", "-h="})
        for (auto& v : {std::vector<std::string>{h}, with({h}, good), with(good, {h}), with({h}, {"--version", "--unknown"})})
        {
            run(v, Res::quit, out, err);
            CHECK(C, err.empty(), "%s prints an error: %s", list(v, env).c_str(), err.c_str());
            helped(v, out);
        }
    for (auto& h : {"--version", "-v", "--v", "-version", "-v=help"})
        for (auto& v : {std::vector<std::string>{h}, with(good, {h, "--help"})})
        {
            run(v, Res::quit, out, err);
            CHECK(C, err.empty() && out == pn + " " + pv + "\n", "%s prints %s%s", list(v, env).c_str(), out.c_str(), err.c_str());
        }
    bad(with({"--unknown"}, good), {"unknown"});
    bad(with({"-unkno=7"}, good), {"unkno"});
    bad(with(good, {"surplus"}), {"surplus"});
    for (auto& x : d)
        if (x.opt())
        {
            bad(with(good, {"--" + x.lng}), {x.lng});
            if (x.shape != O_SHORT) bad(with({"--" + x.lng + "=nonsense"}, good), {x.lng, "nonsense"});
            if (x.shape == O_CHECKED) bad(with({"--" + x.lng, "3"}, good), {x.lng});
        }
    for (size_t i = 0, k = 0; i < d.size(); ++i)
        if (d[i].pos())
        {
            std::vector<std::string> v = good;
            while (k < v.size() && v[k][0] == '-') ++k;
            if (d[i].shape == P_PLAIN) { v[k] = "rubbish"; bad(v, {d[i].lng, "rubbish"}); }
            ++k;
        }
    for (auto& x : d)
        if (x.shape == O_ENV)
        {
            setenv("TCENV_A", "rubbish", 1);
            env["TCENV_A"] = "rubbish";
            bad(good, {x.lng, "rubbish"});
            setenv("TCENV_A", "12", 1);
            env["TCENV_A"] = "12";
            run(good, Res::success, out, err);
            CHECK(C, out.empty() && err.empty(), "a success prints %s%s", out.c_str(), err.c_str());
            unsetenv("TCENV_A");
            env.clear();
            break;
        }
    run(good, Res::success, out, err);
    CHECK(C, out.empty() && err.empty(), "a success prints %s%s", out.c_str(), err.c_str());
}
void messages_all(Ctx& C, int most, const std::vector<int>& menu)
{
    set_env({});
    std::vector<int> v;
    std::function<void(int)> rec = [&](int left) {
        if (C.mine())
        {
            C.state();
            for (int p = 0; p < 3; ++p) messages(C, v, p);
        }
        if (!left) return;
        for (int s : menu)
        {
            v.push_back(s);
            rec(left - 1);
            v.pop_back();
        }
    };
    rec(most);
}
seq::Reg h1("C36/declarations", 8, [](Ctx& C) { messages_all(C, C.thorough ? 4 : 3, {P_PLAIN, P_DESC, O_LONG, O_SHORT, O_ENV, O_REQ, O_CHECKED, F_LONG, F_SHORT, F_ENV}); }, "all sequences of up to 3 declarations of 10 shapes, three programs, help and version requests, good and wrong command lines");
seq::Reg h2("C36/many", 8, [](Ctx& C) { messages_all(C, C.thorough ? 7 : 6, {P_DESC, O_REQ, F_SHORT}); }, "all sequences of up to 6 declarations of 3 shapes");
}
