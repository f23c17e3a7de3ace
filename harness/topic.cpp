// P14: Topic -- service and parameters survive the ZMQ and MDP representations
#include <TimingCtx.hpp>
#include <Topic.hpp>
#include "common.h"
using opencmw::mdp::Topic;
#ifndef NK
#define NK 1
#endif
#ifndef NP
#define NP 2
#endif
static bool okChar(char c) { return (c == '/') | (c == '.') | (c == '_') | ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
static std::string symKeyVal(const char *n, size_t len) { return symString(n, len); }
static bool sameParams(const Topic::Params &a, const Topic::Params &b) {
    if (a.size() != b.size()) return false;
    bool r  = true;
    auto ib = b.begin();
    for (auto &[k, v] : a) {
        r &= same(k, ib->first);
        r &= v.has_value() == ib->second.has_value();
        if (v && ib->second) r &= same(*v, *ib->second);
        ++ib;
    }
    return r;
}
HARNESS(h_topic_service) { // any service text without a query
    std::string s = symString("service", symRange("n", 0, 5));
    bool        noq = true;
    for (char c : s) noq &= c != '?';
    ASSUME(noq);
    size_t end = s.size();
    while (end > 0 && symx_branch(s[end - 1] == '/')) end--;
    std::string want = s.substr(0, end);
    if (want.empty() || !symx_branch(want[0] == '/')) want = "/" + want;
    bool valid = want.size() > 1;
    for (char c : want) valid &= okChar(c);
    try {
        Topic t = Topic::fromString(s);
        CHECKM(valid, "an invalid service name is refused");
        CHECKM(same(t.service(), want), "the service is the text with a leading and without trailing slashes");
        CHECK(t.params().empty());
        REACH("valid");
    } catch (const std::invalid_argument &) {
        CHECKM(!valid, "a valid service name is accepted");
        REACH("refused");
    }
}
static Topic::Params symParams(int n) {
    Topic::Params p;
    std::string   prev;
    for (int i = 0; i < n; i++) {
        std::string k = symKeyVal("key", symRange("klen", 1, i ? 1 : NK));
        if (i) ASSUME(!same(k, prev));
        prev = k;
        if (i && NP == 2) p[k] = std::nullopt;
        else if (symRange("hasValue", 0, 1)) p[k] = symKeyVal("value", symRange("vlen", 1, NK));
        else p[k] = std::nullopt;
    }
    return p;
}
HARNESS(h_topic_zmq) { // every parameter name and value survives the ZMQ topic, with or without the delimiter
    Topic::Params p = symParams((int) symRange("np", 0, 2));
    Topic         t = Topic::fromString("/a/b", p);
    CHECK(sameParams(t.params(), p));
    bool        pound = symRange("pound", 0, 1);
    std::string z     = t.toZmqTopic(pound);
    if (pound) { CHECKM(z.ends_with("#"), "delimited"); size_t n = 0; for (char c : z) n += c == '#'; CHECKM(n == 1, "the delimiter occurs only at the end"); }
    Topic u = Topic::fromZmqTopic(z);
    CHECKM(same(u.service(), "/a/b"), "service survives the ZMQ topic");
    CHECKM(sameParams(u.params(), p), "parameters survive the ZMQ topic");
    CHECKM(u == t, "topics are equal");
    REACH("done");
}
HARNESS(h_topic_mdp) {
    Topic::Params p = symParams((int) symRange("np", 0, 2));
    Topic         t = Topic::fromString("/a/b", p);
    auto          uri = t.toMdpTopic();
    Topic         u   = Topic::fromMdpTopic(uri);
    CHECKM(same(u.service(), "/a/b"), "service survives the MDP topic");
    CHECKM(sameParams(u.params(), p), "parameters survive the MDP topic");
    REACH("done");
}
HARNESS(h_topic_order) { // the order of the parameters is irrelevant
    std::string k1 = symString("k1", 1), k2 = symString("k2", 1), v1 = symString("v1", 1), v2 = symString("v2", 1);
    auto        al = [](char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9')); };
    ASSUME(al(k1[0]) & al(k2[0]) & al(v1[0]) & al(v2[0]));
    ASSUME(k1[0] != k2[0]);
    Topic a = Topic::fromString("/s?" + k1 + "=" + v1 + "&" + k2 + "=" + v2), b = Topic::fromString("/s?" + k2 + "=" + v2 + "&" + k1 + "=" + v1);
    CHECK(a == b);
    CHECKM(same(a.toZmqTopic(), b.toZmqTopic()), "one ZMQ topic for all parameter orders");
    CHECKM(a.hash() == b.hash(), "equal topics have equal hashes");
    Topic c = Topic::fromString("/s");
    c.addParam(k2, v2);
    c.addParam(k1, v1);
    CHECK(a == c);
    REACH("done");
}
HARNESS(h_topic_query) { // any query text
    std::string q = symString("query", symRange("n", 0, 4));
    bool ok = true;
    for (char c : q) ok &= (c != '#');
    ASSUME(ok);
    Topic t   = Topic::fromString("/s?" + q);
    CHECKM(same(t.service(), "/s"), "the service ends at the '?'");
    auto  uri = opencmw::URI<opencmw::RELAXED>("/s?" + q);
    Topic::Params want{ uri.queryParamMap().begin(), uri.queryParamMap().end() };
    CHECKM(sameParams(t.params(), want), "the parameters are the query parameters of the URI");
    bool threw = false;
    try { (void) Topic::fromString("/s?" + q, { { "x", "y" } }); } catch (const std::invalid_argument &) { threw = true; }
    CHECKM(threw, "parameters given twice are refused");
    REACH("done");
}
HARNESS(h_topic_distinct) { // topics that differ have different ZMQ topics
    auto mk = [](const char *n) {
        Topic::Params p;
        std::string k = symString(n, 1);
        if (symRange("v", 0, 1)) p[k] = symString(n, 1); else p[k] = std::nullopt;
        return p;
    };
    Topic::Params p = mk("a"), q = mk("b");
    Topic a = Topic::fromString("/s", p), b = Topic::fromString("/s", q);
    bool eq = sameParams(p, q);
    CHECKM((a == b) == eq, "operator==");
    CHECKM(same(a.toZmqTopic(), b.toZmqTopic()) == eq, "two topics have the same ZMQ topic exactly if they are equal");
    REACH("done");
}
