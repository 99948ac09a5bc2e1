// The real HTTPS layer of /repo with handlers that note what reaches them and
// answer as told: commands on standard input (as in main.cpp), one result each.
// Commands with bg=1 run in a thread of their own; their results come with join.
#include "util.hpp"
#include <chrono>
#include <condition_variable>
#include <iostream>
#include <mutex>
#include <signal.h>
#include <thread>
#include <vector>
#include "brski/http/https_client.hpp"
#include "brski/http/https_server.hpp"
extern "C" {
#include "utils/log.h"
#include <openssl/x509.h>
}
static std::mutex mx;
static std::condition_variable cv;
struct Answer {
  int status = 200;
  std::string body, ct, exc;
  bool has_ct = true;
  int wait = 0; // until so many handlers are inside
};
static std::map<std::string, Answer> answers;
struct Call {
  std::string server, route, body, peer, tag, ct;
};
static std::vector<Call> calls;
static int inside = 0, most = 0;

static std::string der(CRYPTO_CERT c) {
  if (!c)
    return "";
  unsigned char *p = nullptr;
  int n = i2d_X509((X509 *)c, &p);
  if (n < 0)
    return "?";
  std::string o((char *)p, n);
  OPENSSL_free(p);
  return o;
}
static HTTP_METHOD method(const std::string &m) {
  static std::map<std::string, HTTP_METHOD> t = {
      {"GET", HTTP_METHOD_GET},         {"POST", HTTP_METHOD_POST},
      {"PUT", HTTP_METHOD_PUT},         {"DELETE", HTTP_METHOD_DELETE},
      {"OPTIONS", HTTP_METHOD_OPTIONS}, {"PATCH", HTTP_METHOD_PATCH},
      {"HEAD", HTTP_METHOD_HEAD}};
  return t.at(m);
}
static std::string hdr(const RequestHeader &h, const char *k) {
  for (auto &x : h)
    if (!strcasecmp(x.first.c_str(), k))
      return x.second;
  return "";
}
static std::string serve(const Args &a) {
  struct Srv {
    http_config c = {};
    std::vector<RouteTuple> routes;
    void *ctx = nullptr;
    std::string id;
    std::vector<char *> keep;
  };
  Srv *s = new Srv;
  auto s2c = [&](const char *k) { return a.has(k) ? strdup(a.get(k).c_str()) : nullptr; };
  s->id = a.get("id");
  s->c.bind_address = s2c("bind");
  s->c.port = a.num("port");
  s->c.tls_cert_path = s2c("cert");
  s->c.tls_key_path = s2c("key");
  s->c.client_ca_cert_path = s2c("ca");
  for (auto &r : a.all("route")) {
    size_t p = r.find(' ');
    std::string id = s->id;
    s->routes.push_back(
        {.path = r.substr(p + 1),
         .method = method(r.substr(0, p)),
         .handle = [id, r](const RequestHeader &rh, const std::string &body, CRYPTO_CERT peer,
                           ResponseHeader &h, std::string &resp, void *ctx) -> int {
           std::string tag = hdr(rh, "X-Tag");
           Answer an;
           {
             std::unique_lock<std::mutex> l(mx);
             calls.push_back({id, r, body, der(peer), tag, hdr(rh, "Content-Type")});
             an = answers.count(tag) ? answers[tag] : answers[""];
             inside++;
             if (inside > most)
               most = inside;
             cv.notify_all();
             if (an.wait)
               cv.wait_for(l, std::chrono::seconds(4), [&] { return most >= an.wait; });
             inside--;
           }
           if (!ctx || *(std::string *)ctx != id)
             an.status = 599;
           if (!an.exc.empty()) {
             if (an.exc == "int")
               throw 1;
             throw std::runtime_error(an.exc);
           }
           if (an.has_ct)
             h["Content-Type"] = an.ct;
           resp.assign(an.body);
           return an.status;
         }});
  }
  int rc = https_start(&s->c, s->routes, &s->id, &s->ctx);
  J j;
  j.num("rc", rc);
  j.boolean("ctx", s->ctx != nullptr);
  return j.done();
}
static std::string post(const Args &a) {
  J j;
  if (a.has("ca")) {
    std::string resp = "unchanged";
    int st = https_post_request_ca(a.get("key"), a.get("cert"), a.get("ca"), a.get("host"), a.num("port"),
                                   a.get("path"), a.get("body"), a.get("ct"), resp);
    j.num("status", st);
    j.hex("body", resp);
  } else {
    HttpResponse r;
    r.peer_certificate = nullptr;
    r.response = "unchanged";
    int st = https_post_request(a.get("key"), a.get("cert"), a.get("host"), a.num("port"), a.get("path"),
                                a.num("verify") != 0, a.get("body"), a.get("ct"), r);
    j.num("status", st);
    j.hex("body", r.response);
    j.hex("peer", der(r.peer_certificate));
    if (r.peer_certificate)
      crypto_free_certcontext(r.peer_certificate);
  }
  return j.done();
}
static std::string answer(const Args &a) {
  std::lock_guard<std::mutex> l(mx);
  Answer an;
  an.status = a.num("status", 200);
  an.body = a.get("body");
  an.has_ct = a.has("ct");
  an.ct = a.get("ct");
  an.exc = a.get("exc");
  an.wait = a.num("wait");
  answers[a.get("tag")] = an;
  return "{}";
}
static std::string taken(const Args &a) {
  std::lock_guard<std::mutex> l(mx);
  J j('[');
  std::vector<Call> rest;
  for (auto &c : calls) {
    if (a.has("tag") && c.tag != a.get("tag")) {
      rest.push_back(c);
      continue;
    }
    J x;
    x.hex("server", c.server).hex("route", c.route).hex("body", c.body).hex("peer", c.peer).hex("tag", c.tag).hex("ct", c.ct);
    j.item(x.done());
  }
  calls.swap(rest);
  most = 0;
  return j.done();
}
static std::string holds(const Args &) {
  return heldj({held()});
}
static std::map<std::string, OpFn> table = {
    {"serve", serve}, {"post", post}, {"answer", answer}, {"taken", taken}, {"held", holds}};

int main() {
  signal(SIGPIPE, SIG_IGN);
  log_set_quiet(true);
  std::string line;
  std::map<std::string, std::pair<std::thread, std::string>> bg;
  while (std::getline(std::cin, line)) {
    Args a;
    size_t pos = 0;
    bool f = true;
    while (pos <= line.size()) {
      size_t t = line.find('\t', pos);
      if (t == std::string::npos)
        t = line.size();
      std::string tok = line.substr(pos, t - pos);
      pos = t + 1;
      if (f)
        a.op = tok, f = false;
      else if (!tok.empty()) {
        size_t e = tok.find('=');
        a.kv.push_back({tok.substr(0, e), unhex(tok.substr(e + 1))});
      }
    }
    std::string out;
    if (a.op == "join") {
      auto it = bg.find(a.get("bg"));
      if (it == bg.end())
        out = "null";
      else {
        it->second.first.join();
        out = it->second.second;
        bg.erase(it);
      }
    } else if (a.op == "ended") { // has it? without waiting
      std::lock_guard<std::mutex> l(mx);
      auto it = bg.find(a.get("bg"));
      out = it == bg.end() || it->second.second.empty() ? "null" : it->second.second;
    } else if (a.has("bg")) {
      auto &b = bg[a.get("bg")];
      b.second.clear();
      b.first = std::thread([a, &b] {
        std::string r = table.at(a.op)(a);
        std::lock_guard<std::mutex> l(mx);
        b.second = r;
      });
      out = "{}";
    } else
      out = table.at(a.op)(a);
    std::cout << out << std::endl;
  }
  fflush(nullptr);
  _exit(0);
}
