// the real zmq::send / zmq::receive / MessageFrame over an in-memory stand-in for ZeroMQ, against the MDP frame table
#include "common.hpp"
#include "fakezmq.hpp"
#include <zmq/ZmqUtils.hpp>
using nat::Ctl; using namespace opencmw; using F = mdp::MessageFormat; using zmq::MessageFrame;
#define E(c, m) if (!(c)) return std::string(m)
struct In { const std::string &s; size_t q = 0; unsigned b() { return q < s.size() ? (unsigned char) s[q++] : 0u; } std::string text() { unsigned n = b(); n = n < 200 ? n % 6 : n % 80; std::string r; for (unsigned i = 0; i < n; i++) r += char(b()); return r; } };
static std::string str(IoBuffer &b) { return std::string(reinterpret_cast<char *>(b.data()), b.size()); }
static bool uriOk(const std::string &t) { try { URI<STRICT> u(t); return true; } catch (...) { return false; } }
template<F f> static std::string go(In &in) {
    constexpr size_t N = f == F::WithSourceId ? 9 : 8, o = N - 8; long live0 = fake::live; fake::misuse.clear();
    {
        zmq::Context ctx; zmq::Socket sock(ctx, 0); auto &fs = *static_cast<fake::Sock *>(sock.zmq_ptr); unsigned mode = in.b() % 4;
        if (mode == 0) {       // send, then receive what was sent
            std::string src = in.text(), proto = in.text(), srv = in.text(), id = in.text(), data = in.text(), err = in.text(), rbac = in.text(), topic = "/"; unsigned cmd = in.b() % 11; for (unsigned k = in.b() % 30; k; k--) topic += "ab/?="[in.b() % 5]; if (!uriOk(topic)) topic = "/";
            { mdp::BasicMessage<f> m; if constexpr (N == 9) m.sourceId = src; m.protocolName = proto; m.command = static_cast<mdp::Command>(cmd); m.serviceName = srv; m.clientRequestID = IoBuffer(id.data(), id.size()); m.topic = URI<STRICT>(topic); m.data = IoBuffer(data.data(), data.size()); m.error = err; m.rbac = IoBuffer(rbac.data(), rbac.size());
            unsigned fails = in.b() % 3, fatal = in.b() % 8; for (unsigned k = 0; k < fails; k++) fs.sendErrors.push_back(EAGAIN); size_t stop = 100; if (fatal == 0) { stop = in.b() % N; while (fs.sendErrors.size() < stop + fails) fs.sendErrors.push_back(0); fs.sendErrors.push_back(156384765); }
            bool ok = zmq::send(std::move(m), sock).isValid(); std::vector<std::string> want; if (N == 9) want.push_back(src); for (auto &x : { proto, std::string(1, char(cmd)), srv, id, topic, data, err, rbac }) want.push_back(x);
            E(ok == (fatal != 0), "result of send"); E(fs.out.size() == (fatal ? N : stop), "number of frames sent"); for (size_t i = 0; i < fs.out.size(); i++) { E(fs.out[i].first == want[i], "content of a sent frame"); E(bool(fs.out[i].second & ZMQ_SNDMORE) == (i + 1 < N), "continuation mark of a sent frame"); }
            if (!ok) goto end; fs.in.push_back(want); }
            auto r = zmq::receive<f>(sock); E(r.has_value(), "a sent message is refused"); if constexpr (N == 9) E(r->sourceId == src, "source id");
            E(r->protocolName == proto && unsigned(r->command) == cmd && r->serviceName == srv && str(r->clientRequestID) == id && r->topic.str() == topic && str(r->data) == data && r->error == err && str(r->rbac) == rbac, "a field differs after sending and receiving");
        } else if (mode < 3) { // arbitrary frames
            std::vector<std::string> fr; size_t n = in.b() % 3 ? N : 1 + in.b() % 14; for (size_t i = 0; i < n; i++) fr.push_back(in.text()); if (n > o + 1 && in.b() % 4) fr[o + 1] = std::string(1, char(in.b() % 16 ? in.b() % 11 : in.b())); if (n > o + 4 && in.b() % 4) fr[o + 4] = "/t";
            fs.in.push_back(fr); fs.in.push_back({ "next" }); bool fault = mode == 2 && in.b() % 4 == 0; if (fault) { size_t at = in.b() % n; auto &q = in.b() % 2 ? fs.recvErrors : fs.optErrors; for (size_t i = 0; i < at; i++) q.push_back(0); q.push_back(EINTR); }
            bool good = !fault && n == N && fr[o + 1].size() == 1 && (unsigned char) fr[o + 1][0] <= 10 && uriOk(fr[o + 4]); std::optional<mdp::BasicMessage<f>> r;
            try { r = zmq::receive<f>(sock); } catch (...) { return "receive raises an exception"; }
            E(r.has_value() == good, good ? "a well-formed message is refused" : "a malformed message is accepted"); if (!fault) E(fs.in.size() == 1 && fs.at == 0, "the message is not taken from the socket as a whole");
            if (good) { if constexpr (N == 9) E(r->sourceId == fr[0], "source id"); E(r->protocolName == fr[o] && char(r->command) == fr[o + 1][0] && r->serviceName == fr[o + 2] && str(r->clientRequestID) == fr[o + 3] && r->topic.str() == fr[o + 4] && str(r->data) == fr[o + 5] && r->error == fr[o + 6] && str(r->rbac) == fr[o + 7], "a field differs from its frame"); }
        } else {               // frames
            auto make = [&](std::string &c) { unsigned k = in.b() % 5; if (k == 0) { c = in.text(); return MessageFrame(std::string(c)); } if (k == 1) { c = in.text(); return MessageFrame(IoBuffer(c.data(), c.size())); } if (k == 2) { c = std::string(1, char(in.b())); return MessageFrame(c[0]); } if (k == 3) { c = "static"; return MessageFrame::fromStaticData("static"); } c = ""; return MessageFrame(); };
            std::string ca, cb; auto a = make(ca), b = make(cb); E(a.data() == ca && b.data() == cb && a.size() == ca.size(), "frame content");
            for (unsigned k = in.b() % 6; k; k--) switch (in.b() % 4) {
                case 0: a.swap(b); std::swap(ca, cb); break;
                case 1: a = std::move(b); ca = cb; cb = ""; break;
                case 2: { MessageFrame c(std::move(a)); E(c.data() == ca, "moved frame"); a = std::move(c); break; }
                case 3: { int e = in.b() % 2 ? EAGAIN : 0; if (e) fs.sendErrors.push_back(e); bool ok = a.send(sock, ZMQ_DONTWAIT).isValid(); E(ok == (e == 0), "frame send result"); if (ok) { E(fs.out.back().first == ca, "sent frame"); ca = ""; } break; }
            }
        }
        end:;
    }
    E(fake::misuse.empty(), fake::misuse); E(fake::live == live0, "a frame content is not released exactly once"); return "";
}
static std::string check(const std::string &s) { In in{ s }; return in.b() % 2 ? go<F::WithSourceId>(in) : go<F::WithoutSourceId>(in); }
extern "C" const char *__asan_default_options() { return "detect_leaks=0"; }
int main(int argc, char **argv) {
    return nat::run(argc, argv, [](Ctl &c) { c.check = check; return c.prop == "C26"; }, [](Ctl &c) {
        while (c.time_left()) { std::string s; for (uint64_t k = 4 + c.r(c.r(4) ? 60 : 400); k; k--) s += char(c.r(3) ? c.r(256) : c.r(12)); if (!c.go(s)) return; }
    });
}
