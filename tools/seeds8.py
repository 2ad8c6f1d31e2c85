Z = 'src/zmq/include/zmq/ZmqUtils.hpp'
H = open(V + '/native/fakezmq.hpp').read().replace('#pragma once\n', '') + r'''
#include <cstdio>
#include <zmq/ZmqUtils.hpp>
#define R(c) if (!(c)) { printf("failed: %s\n", #c); return 1; }
using namespace opencmw; using F = mdp::MessageFormat;
template<F f> mdp::BasicMessage<f> msg() { mdp::BasicMessage<f> m; if constexpr (f == F::WithSourceId) m.sourceId = "src"; m.protocolName = "MDPC03"; m.command = mdp::Command::Get; m.serviceName = "/s"; m.clientRequestID = IoBuffer("id", 2); m.topic = URI<STRICT>("/t"); m.data = IoBuffer("body", 4); m.error = "e"; m.rbac = IoBuffer("RBAC=A,h", 8); return m; }
using Frames = std::vector<std::string>;
'''
seed('mdp-more-mark', 'C26', [(Z, "const auto flags = index + 1 == RequiredFrameCount ? ZMQ_DONTWAIT", "const auto flags = index == static_cast<std::size_t>(Frame::RBAC) - static_cast<std::size_t>(Frame::Protocol) ? ZMQ_DONTWAIT")],
  H + 'int main() { zmq::Context c; zmq::Socket s(c, 0); auto &f = *static_cast<fake::Sock *>(s.zmq_ptr); R(zmq::send(msg<F::WithoutSourceId>(), s).isValid()); R(f.out.size() == 8 && !(f.out[7].second & ZMQ_SNDMORE)); f.out.clear(); R(zmq::send(msg<F::WithSourceId>(), s).isValid()); for (int i = 0; i < 9; i++) R(bool(f.out[i].second & ZMQ_SNDMORE) == (i < 8)); return 0; }\n', 'a message with source id (broker side)', 'the eighth of nine frames is sent as the last one: the message is split', stubs=True)
seed('mdp-resync', 'C26', [(Z, "                zmsg.frames[framesReceived] = std::move(frame);\n            }\n", "                zmsg.frames[framesReceived] = std::move(frame);\n            } else {\n                return {}; // too many frames\n            }\n")],
  H + 'int main() { zmq::Context c; zmq::Socket s(c, 0); auto &f = *static_cast<fake::Sock *>(s.zmq_ptr); Frames ok{ "MDPC03", "\\x01", "/s", "id", "/t", "body", "", "" }; f.in.push_back(Frames{ "MDPC03", "\\x01", "/s", "id", "/t", "body", "", "", "MDPC03", "\\x02", "/s", "id", "/t", "evil", "", "" }); f.in.push_back(ok); R(!zmq::receive<F::WithoutSourceId>(s)); auto m = zmq::receive<F::WithoutSourceId>(s); R(m && m->command == mdp::Command::Get); return 0; }\n', 'a message with too many frames followed by another one', 'the rest of an over-long message stays in the socket and is read as the beginning of the next one', stubs=True)
seed('mdp-cmd-len', 'C26', [(Z, "if (commandStr.length() != 1 || static_cast<unsigned char>(commandStr[0]) >", "if (commandStr.empty() || static_cast<unsigned char>(commandStr.back()) >")],
  H + 'int main() { zmq::Context c; zmq::Socket s(c, 0); auto &f = *static_cast<fake::Sock *>(s.zmq_ptr); f.in.push_back(Frames{ "MDPC03", std::string("\\xfe\\x01"), "/s", "id", "/t", "body", "", "" }); R(!zmq::receive<F::WithoutSourceId>(s)); f.in.push_back(Frames{ "MDPC03", "\\x01", "/s", "id", "/t", "body", "", "" }); R(zmq::receive<F::WithoutSourceId>(s)); return 0; }\n', 'a command frame of several bytes', 'a message with an over-long command frame is accepted with an undeclared command', stubs=True)
seed('mdp-nul', 'C26', [(Z, "        auto copy = new std::string(std::move(buf));\n        zmq_msg_init_data(\n                &_message, copy->data(), copy->size(),", "        auto copy = new std::string(std::move(buf));\n        zmq_msg_init_data(\n                &_message, copy->data(), std::strlen(copy->c_str()),")],
  H + 'int main() { zmq::Context c; zmq::Socket s(c, 0); auto &f = *static_cast<fake::Sock *>(s.zmq_ptr); auto m = msg<F::WithSourceId>(); m.sourceId = std::string("a\\0b", 3); R(zmq::send(std::move(m), s).isValid()); R(f.out[0].first == std::string("a\\0b", 3)); return 0; }\n', 'a client id that contains a zero byte (as ZeroMQ generates them)', 'text frames are cut at the first zero byte', stubs=True)
seed('mdp-own-assign', 'C26', [(Z, "    MessageFrame &operator=(MessageFrame &&other) noexcept {\n        _owning = false;\n        std::swap(_owning, other._owning);\n", "    MessageFrame &operator=(MessageFrame &&other) noexcept {\n        if (other.size() == 0) {\n            std::swap(_owning, other._owning);\n            return *this;\n        }\n        _owning = false;\n        std::swap(_owning, other._owning);\n")],
  H + 'int main() { { zmq::Context c; zmq::Socket s(c, 0); auto &f = *static_cast<fake::Sock *>(s.zmq_ptr); zmq::MessageFrame a{ std::string("old") }; zmq::MessageFrame b{ std::string() }; a = std::move(b); R(a.size() == 0); (void) f; } R(fake::live == 0); return 0; }\n', 'an empty frame assigned over one with content', 'assigning an empty frame keeps the old content', stubs=True)
