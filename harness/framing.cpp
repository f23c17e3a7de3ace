// P34: MDP messages on the wire (zmq/ZmqUtils.hpp), over the in-memory stand-in for libzmq (stubs/zmq.h)
#include <MdpMessage.hpp>
#include <zmq/ZmqUtils.hpp>
#include "common.h"
using namespace opencmw;
using mdp::MessageFormat;
#ifndef FN
#define FN 2
#endif
static std::string_view sv(const IoBuffer &b) { return { reinterpret_cast<const char *>(b.data()), b.size() }; }
static IoBuffer         buf(const std::string &s) { return IoBuffer(s.data(), s.size()); }

template<MessageFormat F>
static void roundtrip() {
    {
        zmq::Context ctx;
        zmq::Socket  a(ctx, ZMQ_DEALER), b(ctx, ZMQ_DEALER);
        auto        &sa = zmqstub::sockets[0], &sb = zmqstub::sockets[1];
        sa.eagain     = symRange("eagain", 0, 2);
        const int n   = symRange("n", 0, 1) ? FN : 0;
        const int big = symRange("big", 0, 1) ? 33 : FN; // one body longer than any small-buffer optimisation
        std::string src = symString("src", n), prot = symString("prot", 6), srv = symString("srv", n), req = symString("req", n), data = symString("data", big), err = symString("err", n), rbac = symString("rbac", n);
        unsigned char cmd = sym<unsigned char>("cmd");
        ASSUME(cmd <= 10);
        const char *topics[] = { "/", "/a/b?c=d", "mdp://h:1/a", "" };
        std::string topic    = topics[symRange("topic", 0, 3)];
        mdp::BasicMessage<F> m;
        if constexpr (F == MessageFormat::WithSourceId) m.sourceId = src;
        m.protocolName    = prot;
        m.command         = static_cast<mdp::Command>(cmd);
        m.serviceName     = srv;
        m.clientRequestID = buf(req);
        m.topic           = mdp::Message::URI(topic);
        m.data            = buf(data);
        m.error           = err;
        m.rbac            = buf(rbac);
        CHECKM(zmq::send(std::move(m), a).isValid(), "a message is sent, however often the socket answers EAGAIN");
        constexpr int N = F == MessageFormat::WithSourceId ? 9 : 8;
        CHECKM(zmqstub::sent(sa) == N, "a message is sent as the documented number of frames");
        bool more = true;
        for (int i = 0; i < N; i++) more &= zmqstub::outMore(sa, i) == (i + 1 < N);
        CHECKM(more, "the frames form one multi-part message");
        {   // the frame order of the protocol
            const int o = N - 8;
            auto      f = [&](int i) { return std::string_view(zmqstub::outData(sa, i), zmqstub::outSize(sa, i)); };
            if (o) CHECKM(same(f(0), src), "frame 0 is the source id");
            CHECKM(same(f(o), prot) & same(f(o + 2), srv) & same(f(o + 3), req) & same(f(o + 4), topic) & same(f(o + 5), data) & same(f(o + 6), err) & same(f(o + 7), rbac), "every field is sent unchanged in its frame");
            CHECKM(f(o + 1).size() == 1 && static_cast<unsigned char>(f(o + 1)[0]) == cmd, "the command is sent as one byte");
        }
        zmqstub::deliver(sa, sb);
        auto r = zmq::receive<F>(b);
        CHECKM(r.has_value(), "a message that was sent is received");
        bool ok = true;
        if constexpr (F == MessageFormat::WithSourceId) ok &= same(r->sourceId, src);
        ok &= same(r->protocolName, prot);
        ok &= static_cast<unsigned char>(r->command) == cmd;
        ok &= same(r->serviceName, srv) & same(sv(r->clientRequestID), req) & same(r->topic.str(), topic) & same(sv(r->data), data) & same(r->error, err) & same(sv(r->rbac), rbac);
        CHECKM(ok, "every field is received as it was sent");
        CHECKM(!zmq::receive<F>(b).has_value(), "one message is received once");
        CHECKM(zmqstub::live == 0, "every frame buffer is released");
    }
    CHECKM(!zmqstub::misuse && zmqstub::nOpen == 0 && zmqstub::nContexts == 0, "messages, sockets and the context are used and released as libzmq asks");
    REACH("done");
}
HARNESS(h_frame_source) { roundtrip<MessageFormat::WithSourceId>(); }
HARNESS(h_frame_plain) { roundtrip<MessageFormat::WithoutSourceId>(); }

// any frames from the network: refused or taken, nothing thrown, nothing left over
template<MessageFormat F>
static void bad() {
    {
        zmq::Context ctx;
        zmq::Socket  b(ctx, ZMQ_DEALER);
        auto        &sb = zmqstub::sockets[0];
        constexpr int N = F == MessageFormat::WithSourceId ? 9 : 8, o = N - 8;
        const int   count = symRange("frames", 0, N + 2);
        const int   nc = symRange("ncmd", 0, 2);
        std::string cmd = symString("cmd", nc), topic = symString("topic", symRange("ntopic", 0, FN)), any = symString("any", 1);
        for (int i = 0; i < count; i++) {
            const std::string &f = i == o + 1 ? cmd : i == o + 4 ? topic : any;
            zmqstub::push(sb, f.data(), f.size(), i + 1 < count);
        }
        // a well-formed message follows
        for (int i = 0; i < N; i++) zmqstub::push(sb, i == o + 1 ? "\x01" : i == o + 4 ? "/" : "x", 1, i + 1 < N);
        bool threw = false;
        std::optional<mdp::BasicMessage<F>> r;
        if (count) {
            try { r = zmq::receive<F>(b); } catch (...) { threw = true; }
        }
        CHECKM(!threw, "receiving a message never throws, whatever the frames contain");
        const bool good = count == N && nc == 1 && symx_branch(static_cast<unsigned char>(cmd[0]) <= 10);
        if (!good) CHECKM(!r.has_value(), "a message with the wrong number of frames or no valid command is refused");
        else {
            bool plain = topic.empty() || topic[0] == '/'; // a path made of unreserved characters is certainly valid
            for (char c : topic) plain &= (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '/';
            if (symx_branch(plain) && !(topic.size() > 1 && symx_branch(topic[0] == '/' && topic[1] == '/'))) { CHECKM(r.has_value(), "a message with the right frames is taken"); REACH("taken"); }
            if (r) {
                CHECKM(static_cast<unsigned char>(r->command) == static_cast<unsigned char>(cmd[0]) && same(r->topic.str(), topic) && same(r->error, any), "what was taken is what the frames say");
            } else REACH("topic");
        }
        if (!r) REACH("refused");
        auto next = zmq::receive<F>(b);
        CHECKM(next.has_value() && next->command == mdp::Command::Get && next->topic.str() == "/", "the next message is received intact");
        CHECKM(zmqstub::live == 0 && !zmq::receive<F>(b), "every frame is consumed and released");
    }
    CHECKM(!zmqstub::misuse && zmqstub::nOpen == 0, "frames and sockets are used as libzmq asks");
}
HARNESS(h_frame_bad_source) { bad<MessageFormat::WithSourceId>(); }
HARNESS(h_frame_bad_plain) { bad<MessageFormat::WithoutSourceId>(); }

// a single frame: all the ways to build, move and swap one
HARNESS(h_frame_life) {
    {
        zmq::Context ctx;
        zmq::Socket  a(ctx, ZMQ_PUSH);
        auto        &sa = zmqstub::sockets[0];
        std::string  t = symString("t", symRange("n", 0, 1) ? 20 : 1);
        char         c = sym<char>("c");
        auto make = [&](int k) -> zmq::MessageFrame {
            switch (k) {
            case 0: return zmq::MessageFrame(std::string(t));
            case 1: return zmq::MessageFrame(buf(t));
            case 2: return zmq::MessageFrame(c);
            case 3: return zmq::MessageFrame::fromStaticData(t);
            default: return zmq::MessageFrame();
            }
        };
        auto is = [&](const zmq::MessageFrame &f, int k) {
            if (k == 2) return f.size() == 1 && f.data()[0] == c;
            if (k == 4) return f.size() == 0;
            return same(f.data(), t);
        };
        const int k1 = symRange("first", 0, 4), k2 = symRange("second", 0, 4);
        zmq::MessageFrame x = make(k1), y = make(k2);
        CHECKM(is(x, k1) && is(y, k2), "a frame holds the data it was made from");
        switch (symRange("op", 0, 3)) {
        case 0: x.swap(y); CHECKM(is(x, k2) && is(y, k1), "swap() exchanges the contents"); break;
        case 1: x = std::move(y); CHECKM(is(x, k2) && y.size() == 0, "move assignment takes the content over"); break;
        case 2: { zmq::MessageFrame z(std::move(x)); CHECKM(is(z, k1) && x.size() == 0, "a moved-to frame has the content"); x = std::move(z); CHECKM(is(x, k1), "and gives it back"); break; }
        default: {
            sa.eagain = symRange("eagain", 0, 1);
            const bool again = sa.eagain > 0;
            auto r = x.send(a, ZMQ_DONTWAIT);
            CHECKM(r.isValid() == !again, "send() reports what the socket answered");
            if (again) { CHECKM(is(x, k1), "a frame that could not be sent keeps its content"); auto r2 = x.send(a, ZMQ_DONTWAIT); CHECKM(r2.isValid(), "and can be sent again"); }
            CHECKM(zmqstub::sent(sa) == 1 && x.size() == 0, "a sent frame is handed over");
            x = std::move(y);
            CHECKM(is(x, k2), "and can be reused");
        }
        }
    }
    CHECKM(zmqstub::live == 0 && !zmqstub::misuse, "every frame buffer is released exactly once");
    REACH("done");
}
// endpoints: mdp:// and mds:// are tcp:// for libzmq, everything else is passed on
HARNESS(h_frame_endpoint) {
    const char *schemes[] = { "mdp", "mds", "tcp", "inproc" };
    const int   k = symRange("scheme", 0, 3);
    std::string host = symString("host", 2);
    bool        ok = true;
    for (char ch : host) ok &= ch >= 'a' && ch <= 'z';
    ASSUME(ok);
    const std::string rest = std::string("://") + host + (symRange("port", 0, 1) ? ":123" : "") + (symRange("path", 0, 1) ? "/p" : "");
    CHECKM(same(mdp::toZeroMQEndpoint(URI<>(schemes[k] + rest)), std::string(k < 2 ? "tcp" : schemes[k]) + rest), "mdp:// and mds:// addresses become tcp://, others stay as they are");
    REACH("done");
}
