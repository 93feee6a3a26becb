// C33: the text form of uuids.
#include <teiacare/sdk/uuid.hpp>
#include <teiacare/sdk/uuid_generator.hpp>

#include <algorithm>
#include <array>
#include <memory>
#include <optional>
#include <sstream>

#include "seq.h"

using Bytes = std::array<uint8_t, 16>;
using seq::Ctx;
using seq::show;

namespace
{
int hexval(char c)
{
    static const std::string lo = "0123456789abcdef", up = "0123456789ABCDEF";
    size_t p = lo.find(c);
    if (p == std::string::npos) p = up.find(c);
    return p == std::string::npos ? -1 : static_cast<int>(p);
}
// Reference: optional enclosing braces, dashes anywhere in between, exactly 32 hex digits.
std::optional<Bytes> ref(std::string s)
{
    if (s.empty()) return {};
    if (s[0] == '{')
    {
        if (s.size() < 2 || s.back() != '}') return {};
        s = s.substr(1, s.size() - 2);
    }
    std::string digits;
    for (char c : s)
        if (c != '-') digits += c;
    if (digits.size() != 32) return {};
    Bytes b{};
    for (size_t i = 0; i < 16; ++i)
    {
        int h = hexval(digits[2 * i]), l = hexval(digits[2 * i + 1]);
        if (h < 0 || l < 0) return {};
        b[i] = static_cast<uint8_t>(h * 16 + l);
    }
    return b;
}
std::string canonical(const Bytes& b)
{
    std::string o;
    for (size_t i = 0; i < 16; ++i)
    {
        char t[4];
        snprintf(t, sizeof t, "%02x", b[i]);
        o += t;
        if (i == 3 || i == 5 || i == 7 || i == 9) o += '-';
    }
    return o;
}
const tc::sdk::uuid_generator& gen() { return tc::sdk::uuid_generator::instance(); }

std::optional<tc::sdk::uuid> check(Ctx& C, const std::string& s)
{
    C.at_text(show(s));
    C.exec();
    // an exact copy without terminator: reading outside is caught
    auto raw = std::make_unique<char[]>(s.size());
    std::copy(s.begin(), s.end(), raw.get());
    std::string_view v(raw.get(), s.size());
    auto want = ref(s);
    bool valid = gen().is_valid(v);
    std::optional<tc::sdk::uuid> got;
    try
    {
        got = gen().from_string(v);
    }
    catch (const std::runtime_error&)
    {
    }
    CHECK(C, valid == want.has_value(), "is_valid says %d, reading it %s", valid, want ? "is possible" : "is not possible");
    CHECK(C, got.has_value() == want.has_value(), "from_string %s a string that is %s", got ? "accepts" : "rejects", want ? "a uuid" : "no uuid");
    if (want)
    {
        std::string t = got->to_string();
        CHECK(C, t == canonical(*want), "it prints as %s", t.c_str());
        std::ostringstream os;
        os << *got;
        CHECK(C, os.str() == t, "it streams as %s", os.str().c_str());
        CHECK(C, gen().from_string(t) == *got && !(gen().from_string(t) != *got), "its printed form reads back as another uuid");
        C.outcome(t);
    }
    else
        C.outcome(1);
    return got;
}
const std::string BASE[] = {"01234567-89ab-4cde-8f01-23456789abcd", "{FEDCBA98-7654-4321-BFED-CBA987654321}", "0f1e2d3c4b5a49788796a5b4c3d2e1f0", "{00000000000040008000000000000000}", "--ffffffff-ffff-4fff-bfff-ffffffffffff--"};

void values(Ctx& C)
{
    // every byte value at every position over two backgrounds, in five spellings
    for (int bg = 0; bg < 2; ++bg)
        for (int p = 0; p < 16; ++p)
            for (int v = 0; v < 256; ++v)
            {
                if (!C.mine()) continue;
                Bytes b;
                for (int i = 0; i < 16; ++i) b[static_cast<size_t>(i)] = static_cast<uint8_t>(bg ? 0xA5 - i * 3 : 0);
                b[static_cast<size_t>(p)] = static_cast<uint8_t>(v);
                C.state();
                std::string c = canonical(b), u = c, n;
                for (char& ch : u) ch = static_cast<char>(toupper(ch));
                for (char ch : c)
                    if (ch != '-') n += ch;
                auto a = check(C, c);
                for (const std::string& s : {u, n, "{" + c + "}", "{" + u + "}", "{" + n + "}"})
                {
                    auto o = check(C, s);
                    CHECK(C, a && o && *a == *o, "differs from %s", c.c_str());
                }
            }
    C.sample("every byte value in every position");
}
void edits(Ctx& C, int edits)
{
    const std::string alpha = std::string("09afAFgG-{}` \x7f/:@[") + '\0' + '\xff';
    for (const std::string& b : BASE)
    {
        std::vector<std::string> one{b};
        for (size_t i = 0; i <= b.size(); ++i)
        {
            for (char c : alpha)
            {
                std::string s = b;
                s.insert(i, 1, c);
                one.push_back(s);
                if (i < b.size())
                {
                    s = b;
                    s[i] = c;
                    one.push_back(s);
                }
            }
            if (i < b.size())
            {
                std::string s = b;
                s.erase(i, 1);
                one.push_back(s);
            }
            one.push_back(b.substr(0, i));
            one.push_back(b.substr(i));
        }
        if (edits == 1)
        {
            for (auto& s : one)
                if (C.mine()) { C.state(); check(C, s); }
            continue;
        }
        const std::string alpha2 = C.thorough ? alpha : std::string("0fAg-{}");
        for (auto& t : one)
        {
            if (!C.mine()) continue;
            C.state();
            for (size_t i = 0; i <= t.size(); i += C.thorough ? 1 : 3)
            {
                for (char c : alpha2)
                {
                    std::string s = t;
                    s.insert(i, 1, c);
                    check(C, s);
                    if (i < t.size())
                    {
                        s = t;
                        s[i] = c;
                        check(C, s);
                    }
                }
                if (i < t.size())
                {
                    std::string s = t;
                    s.erase(i, 1);
                    check(C, s);
                }
            }
        }
    }
    C.sample("edited: " + BASE[0]);
}
void shorts(Ctx& C)
{
    // all short strings, alone and as the head or tail of 32 digits
    const std::string alpha = "0fG-{}";
    const std::string body = "0123456789abcdef0123456789abcdef";
    int L = C.thorough ? 7 : 5;
    std::function<void(std::string)> go = [&](std::string s) {
        if (C.mine())
        {
            C.state();
            check(C, s);
            check(C, s + body);
            check(C, body + s);
            check(C, "{" + s + body + "}");
            check(C, "{" + body + s + "}");
            for (size_t cut : {size_t(1), size_t(2), size_t(5)})
                if (s.size() >= cut) check(C, s + body.substr(s.size() - cut)), check(C, body.substr(0, 32 - s.size() + cut) + s);
        }
        if (static_cast<int>(s.size()) < L)
            for (char c : alpha) go(s + c);
    };
    go("");
    // every char value in every position of the braced canonical form
    std::string b = "{" + BASE[0] + "}";
    for (size_t i = 0; i < b.size(); ++i)
        for (int c = 0; c < 256; ++c)
            if (C.mine())
            {
                std::string s = b;
                s[i] = static_cast<char>(c);
                C.state();
                check(C, s);
            }
    // dashes everywhere
    for (size_t i = 0; i <= 32; ++i)
        for (size_t j = 0; j <= 32; ++j)
            if (C.mine())
            {
                std::string s = body;
                s.insert(std::max(i, j), "-");
                s.insert(std::min(i, j), "--");
                C.state();
                check(C, s);
            }
    C.sample("all strings up to length " + std::to_string(L) + " over " + alpha);
}
void order(Ctx& C)
{
    // all pairs of uuids that differ from a background in at most two bytes
    std::vector<Bytes> set;
    for (int p = 0; p < 16; ++p)
        for (int v : {0, 1, 0x0f, 0x10, 0x7f, 0x80, 0xfe, 0xff})
        {
            Bytes b;
            b.fill(0x7f);
            b[static_cast<size_t>(p)] = static_cast<uint8_t>(v);
            set.push_back(b);
            b[static_cast<size_t>(15 - p)] ^= 0x81;
            set.push_back(b);
        }
    std::vector<tc::sdk::uuid> u;
    for (auto& b : set) u.push_back(gen().from_string(canonical(b)));
    tc::sdk::uuid nil;
    CHECK(C, nil.to_string() == "00000000-0000-0000-0000-000000000000", "a default uuid prints as %s", nil.to_string().c_str());
    for (size_t i = 0; i < set.size(); ++i)
        for (size_t j = 0; j < set.size(); ++j)
        {
            if (!C.mine()) continue;
            C.state();
            C.exec();
            C.at_text(canonical(set[i]) + " and " + canonical(set[j]));
            int w = memcmp(set[i].data(), set[j].data(), 16);
            CHECK(C, (u[i] == u[j]) == (w == 0), "wrong ==");
            CHECK(C, (u[i] != u[j]) == (w != 0), "wrong !=");
            CHECK(C, (u[i] < u[j]) == (w < 0), "wrong <");
            CHECK(C, (u[i] > u[j]) == (w > 0), "wrong >");
            CHECK(C, (u[i] <= u[j]) == (w <= 0), "wrong <=");
            CHECK(C, (u[i] >= u[j]) == (w >= 0), "wrong >=");
            // copies and moves carry the value
            tc::sdk::uuid c = u[i];
            c = u[j];
            tc::sdk::uuid m = std::move(c);
            CHECK(C, m == u[j], "a copy differs");
            C.outcome(static_cast<uint64_t>(w < 0 ? 0 : w ? 2 : 1));
        }
    C.sample("all pairs of " + std::to_string(set.size()) + " uuids");
}
seq::Reg r1("C33/values", 4, values, "every byte value at every position, six spellings");
seq::Reg r2("C33/edit-1", 2, [](Ctx& C) { edits(C, 1); }, "all single edits and all prefixes and suffixes of five spellings");
seq::Reg r3("C33/edit-2", 16, [](Ctx& C) { edits(C, 2); }, "pairs of edits");
seq::Reg r4("C33/strings", 8, shorts, "all short strings over {0 f G - { }} alone and around 32 digits, every char value at every position");
seq::Reg r5("C33/order", 2, order);
}
