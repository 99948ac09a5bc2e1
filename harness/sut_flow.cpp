// The three parties of the code under test joined without a network: the HTTP
// layer is replaced by this file. Server start-up hands over its routes, client
// calls are dispatched to the other party's handler in-process, and every hop can
// be recorded, rewritten, refused or given another peer certificate.
#include "sut.hpp"
#include "fx.hpp"
#include "sched.hpp"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <openssl/err.h>
#include <openssl/pem.h>
#include <unistd.h>

#include "brski/http/http.hpp"
#include "brski/http/https_client.hpp"
#include "brski/http/https_server.hpp"
#include "brski/masa/masa_api.hpp"
#include "brski/masa/masa_config.h"
#include "brski/masa/masa_server.hpp"
#include "brski/pledge/pledge_request.hpp"
#include "brski/registrar/registrar_api.hpp"
#include "brski/registrar/registrar_config.h"
#include "brski/registrar/registrar_server.hpp"
extern "C" {
#include "brski/config.h"
#include "brski/pledge/pledge_utils.h"
}

// ---- safety: the registrar's log never leaves the scratch directory
static std::string g_logfile;
extern "C" FILE *__real_fopen(const char *p, const char *m);
extern "C" FILE *__wrap_fopen(const char *p, const char *m) {
  if (p && strncmp(p, "/var/", 5) == 0)
    p = g_logfile.empty() ? "/dev/null" : g_logfile.c_str();
  if (!sched::active())
    return __real_fopen(p, m);
  sched::point(p && p == g_logfile ? "log" : "file");
  return p && p == g_logfile ? sched::open_pieces(p, m) : __real_fopen(p, m);
}

// ---- a decision is asked for and taken
#define MASA_ARGS                                                              \
  const BinaryArray *rvr, const struct tm *exp, voucher_req_fn cb, void *ctx,  \
      const BinaryArray *sc, const BinaryArray *sk, const BinaryArrayList *rc, \
      const BinaryArrayList *rs, const BinaryArrayList *pc,                    \
      const BinaryArrayList *ps, const BinaryArrayList *add
extern "C" BinaryArray *__real_sign_masa_pledge_voucher(MASA_ARGS);
extern "C" BinaryArray *__wrap_sign_masa_pledge_voucher(MASA_ARGS) {
  sched::point("ask");
  struct Ask {
    voucher_req_fn cb;
    void *ctx;
  } ask = {cb, ctx};
  voucher_req_fn via = [](const char *sn, const BinaryArrayList *certs, void *c,
                          BinaryArray *pinned) -> int {
    Ask *k = (Ask *)c;
    int r = k->cb(sn, certs, k->ctx, pinned);
    sched::point("decided");
    return r;
  };
  BinaryArray *o = __real_sign_masa_pledge_voucher(
      rvr, exp, cb && sched::active() ? via : cb,
      cb && sched::active() ? (void *)&ask : ctx, sc, sk, rc, rs, pc, ps, add);
  sched::point("made");
  return o;
}

// ---- the replaced transport
struct Side {
  bool up = false;
  http_config conf = {};
  std::vector<RouteTuple> routes;
  void *ctx = nullptr;
};
static Side g_reg, g_masa;
static Side *g_starting = nullptr;
static int g_stops = 0;
static thread_local std::string g_calls;
static thread_local std::map<std::string, int> g_count;
static std::vector<std::array<std::string, 3>> g_iv; // hop, kind, value
static brski_config g_conf;
static bool g_peerset = false;

int https_start(http_config *config, std::vector<RouteTuple> &routes, void *ctx,
                void **srv_ctx) {
  g_starting->up = true;
  g_starting->conf = *config;
  g_starting->routes = routes;
  g_starting->ctx = ctx;
  *srv_ctx = &g_stops;
  return 0;
}
void https_stop(void *) { g_stops++; }
std::string get_https_address(const char *b, int port) {
  return "https://" + std::string(b) + ":" + std::to_string(port);
}

static X509 *pem_file(const char *p) {
  if (!p || !*p)
    return nullptr;
  FILE *f = __real_fopen(p, "r");
  if (!f)
    return nullptr;
  X509 *x = PEM_read_X509(f, nullptr, nullptr, nullptr);
  fclose(f);
  return x;
}
static bool pem_pair(const char *certp, const char *keyp) {
  X509 *x = pem_file(certp);
  FILE *f = keyp && *keyp ? __real_fopen(keyp, "r") : nullptr;
  EVP_PKEY *k = f ? PEM_read_PrivateKey(f, nullptr, nullptr, nullptr) : nullptr;
  if (f)
    fclose(f);
  bool ok = x && k && X509_check_private_key(x, k) == 1;
  X509_free(x);
  EVP_PKEY_free(k);
  ERR_clear_error();
  return ok;
}
static Bytes file_bytes(const std::string &p) {
  Bytes o;
  FILE *f = __real_fopen(p.c_str(), "rb");
  if (!f)
    return o;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0)
    o.append(b, n);
  fclose(f);
  return o;
}
static const std::string *iv(const std::string &hop, const char *kind) {
  for (auto &e : g_iv)
    if (e[0] == hop && e[1] == kind)
      return &e[2];
  return nullptr;
}
static const char *METHODS[] = {"GET",     "HEAD",    "POST",  "PUT",   "DELETE",
                                "CONNECT", "OPTIONS", "TRACE", "PATCH", "PRI"};

static int dispatch(Side &s, const std::string &method, const std::string &path,
                    X509 *peer, const std::string &body, std::string &resp,
                    ResponseHeader &hdr) {
  RequestHeader rq;
  for (auto &r : s.routes)
    if (r.path == path && method == METHODS[r.method]) {
      try {
        return r.handle(rq, body, (CRYPTO_CERT)peer, hdr, resp, s.ctx);
      } catch (std::exception &e) { // as the exception handler of the server does
        resp = e.what();
        hdr.clear();
        return 505;
      }
    }
  return 404;
}

// time passes on the network, for others to come in between
static std::atomic<bool> g_free(false);
static void meanwhile(const char *kind) {
  sched::point(kind);
  static thread_local unsigned n = (unsigned)(uintptr_t)&n;
  if (g_free)
    usleep((n = n * 1103515245 + 12345) >> 16 & 1023);
}
// what the HTTP layer does around a handler
static int exchange(const std::string &key, const std::string &cert,
                    const std::string *ca, const std::string &host, int port,
                    const std::string &path, bool verify,
                    const std::string &body, const std::string &ct,
                    std::string &response, X509 **peer_out) {
  meanwhile("send"); // what is sent is read while it is being sent
  bool masa = g_conf.mconf.port == (unsigned)port;
  Side &s = masa ? g_masa : g_reg;
  std::string hop;
  hop = masa ? "masa" : "reg";
  hop += "." + std::to_string(g_count[hop]++);
  J j;
  j.str("hop", hop);
  j.hex("key", key).hex("cert", cert).hex("host", host).num("port", port);
  j.hex("path", path).boolean("verify", verify).hex("body", body).hex("ct", ct);
  ca ? j.hex("ca", *ca) : j.null("ca");
  int status = -1;
  std::string why, resp, raw, act;
  X509 *peer = nullptr, *client = nullptr;
  std::string req = body;
  if (auto v = iv(hop, "peer")) {
    peer = fx_x509(*v);
  } else
    peer = pem_file(s.conf.tls_cert_path);
  if (auto v = iv(hop, "client"))
    client = v->empty() ? nullptr : fx_x509(*v);
  else
    client = pem_file(cert.c_str());
  if (auto v = iv(hop, "reqsub"))
    req = *v;
  if (iv(hop, "fail"))
    why = "refused";
  else if (!peer)
    why = "nopeer";
  else if (!client && !iv(hop, "client"))
    why = "noclientcert"; // the TLS client cannot be set up
  else if (!iv(hop, "client") && !pem_pair(cert.c_str(), key.c_str()))
    why = "noclientkey";
  else if (verify)
    why = "verify"; // no system-wide CA knows these certificates
  else if (ca && !fx_tls_trusts(*ca, peer))
    why = "untrusted";
  else if (s.conf.client_ca_cert_path &&
           !(client && fx_tls_client_ok(file_bytes(s.conf.client_ca_cert_path),
                                        client)))
    why = "clientauth";
  else if (iv(hop, "skip"))
    status = 200;
  else {
    ResponseHeader hdr;
    status = dispatch(s, "POST", path, client, req, resp, hdr);
    raw = resp;
    act = hdr["Content-Type"];
    if (status >= 400 && resp.empty())
      resp = HTTP_ERROR_REPLY;
  }
  if (why.empty()) {
    j.num("sent", status); // what the server side answered
    j.hex("answer", raw).hex("act", act);
    if (auto v = iv(hop, "status"))
      status = atoi(v->c_str());
    if (auto v = iv(hop, "ressub"))
      resp = *v;
    response = resp;
    j.hex("got", resp).raw("peer", "\"" + hexs(x509_der(peer)) + "\"");
    j.hex("client", client ? x509_der(client) : Bytes());
    if (peer_out)
      *peer_out = X509_dup(peer);
  }
  j.str("why", why).num("status", status);
  X509_free(peer);
  X509_free(client);
  if (!g_calls.empty())
    g_calls += ",";
  g_calls += j.done();
  meanwhile("answered");
  return status;
}
int https_post_request(const std::string &key, const std::string &cert,
                       const std::string &host, int port,
                       const std::string &path, bool verify,
                       const std::string &body, const std::string &ct,
                       HttpResponse &res) {
  X509 *p = nullptr;
  std::string resp;
  int st = exchange(key, cert, nullptr, host, port, path, verify, body, ct, resp,
                    &p);
  if (st < 0)
    return -1;
  res.peer_certificate = (CRYPTO_CERT)p;
  res.response = resp;
  return st;
}
int https_post_request_ca(const std::string &key, const std::string &cert,
                          const std::string &ca, const std::string &host,
                          int port, const std::string &path,
                          const std::string &body, const std::string &ct,
                          std::string &response) {
  std::string resp;
  int st = exchange(key, cert, &ca, host, port, path, false, body, ct, resp,
                    nullptr);
  if (st < 0)
    return -1;
  response = resp;
  return st;
}

// ---- sessions
static std::vector<std::string> split(const std::string &s) {
  std::vector<std::string> o;
  size_t p = 0;
  for (;;) {
    size_t q = s.find('|', p);
    o.push_back(s.substr(p, q == std::string::npos ? q : q - p));
    if (q == std::string::npos)
      return o;
    p = q + 1;
  }
}
static MasaContext *g_mc;
static RegistrarContext *g_rc;
static void servers_start(J &j) {
  int r1 = 0, r2 = 0;
  g_starting = &g_masa;
  r1 = masa_start(&g_conf.rconf, &g_conf.mconf, &g_conf.pconf, &g_mc);
  g_starting = &g_reg;
  r2 = registrar_start(&g_conf.rconf, &g_conf.mconf, &g_rc);
  if (g_rc)
    snprintf(g_rc->log_path, sizeof g_rc->log_path, "%s", g_logfile.c_str());
  j.num("masa", r1).num("reg", r2);
}
static void put_file(const std::string &path, const Bytes &b) {
  FILE *o = __real_fopen(path.c_str(), "wb");
  if (o) {
    fwrite(b.data(), 1, b.size(), o);
    fclose(o);
  }
}
static std::string session_start(const Args &a) {
  g_logfile = a.get("log");
  for (auto &s : a.all("init")) { // what is there before: pathhex|hex (- for no file)
    auto f = split(s);
    if (f[1] == "-")
      unlink(unhex(f[0]).c_str());
    else
      put_file(unhex(f[0]), unhex(f[1]));
  }
  CStr conf(a, "conf");
  if (load_brski_config(conf.p, &g_conf) < 0)
    return "{\"conf\":-1}";
  J j;
  j.num("conf", 0);
  servers_start(j);
  return j.done();
}
static std::string hdrj(const ResponseHeader &h) {
  J j('[');
  for (auto &p : h)
    j.item("[\"" + hexs(p.first) + "\",\"" + hexs(p.second) + "\"]");
  return j.done();
}
static std::string routesj(const Side &s) {
  J j('[');
  for (auto &r : s.routes)
    j.item(std::string("[\"") + METHODS[r.method] + "\",\"" + r.path + "\"]");
  return j.done();
}
static std::string confj(const Side &s) {
  J j;
  auto f = [&](const char *k, const char *v) {
    v ? j.hex(k, v) : j.null(k);
  };
  f("bind", s.conf.bind_address);
  j.num("port", s.conf.port);
  f("cert", s.conf.tls_cert_path);
  f("key", s.conf.tls_key_path);
  f("clientca", s.conf.client_ca_cert_path);
  j.boolean("up", s.up);
  return j.done();
}

static std::string run_step(const std::string &st) {
  auto f = split(st);
  J j;
  g_calls.clear();
  g_count.clear();
  if (f[0] == "reg" || f[0] == "masa") {
    Side &s = f[0] == "reg" ? g_reg : g_masa;
    X509 *peer = f[3].empty() ? nullptr : fx_x509(unhex(f[3]));
    std::string resp;
    ResponseHeader hdr;
    int status = dispatch(s, f[1], f[2], peer, unhex(f[4]), resp, hdr);
    j.num("status", status).hex("resp", resp).raw("hdr", hdrj(hdr));
    X509_free(peer);
  } else if (f[0] == "voucher") {
    BinaryArray pinned = {};
    int rc = post_voucher_pledge_request(&g_conf.pconf, &g_conf.rconf,
                                         &g_conf.mconf, &pinned);
    j.num("rc", rc).raw("pinned", jba(&pinned));
    free_binary_array_content(&pinned);
  } else if (f[0] == "sign") {
    BinaryArray c = {}, k = {};
    int rc =
        post_sign_cert(&g_conf.pconf, &g_conf.rconf, &g_conf.mconf, &c, &k);
    j.num("rc", rc).raw("cert", jba(&c)).raw("key", jba(&k));
    free_binary_array_content(&c);
    free_binary_array_content(&k);
  } else if (f[0] == "verify") {
    BA v(unhex(f[1])), t(unhex(f[2]));
    BinaryArray pinned = {};
    int rc = verify_masa_pledge_request(&g_conf.pconf, &v.v, &t.v, &pinned);
    j.num("rc", rc).raw("pinned", jba(&pinned));
    free_binary_array_content(&pinned);
  } else if (f[0] == "pvr") {
    BA t(unhex(f[1]));
    char *s = voucher_pledge_request_to_base64(&g_conf.pconf,
                                               f[1] == "NULL" ? nullptr : &t.v);
    s ? j.hex("b64", s) : j.null("b64");
    free(s);
  } else if (f[0] == "pvrfile") {
    BA t(unhex(f[1]));
    int rc = voucher_pledge_request_to_smimefile(&g_conf.pconf, &t.v,
                                                 unhex(f[2]).c_str());
    j.num("rc", rc);
  } else if (f[0] == "log") {
    j.hex("log", file_bytes(g_logfile));
  } else if (f[0] == "write") { // fixture change between requests
    put_file(unhex(f[1]), unhex(f[2]));
  } else if (f[0] == "rm") {
    unlink(unhex(f[1]).c_str());
  } else if (f[0] == "restart") {
    masa_stop(g_mc);
    registrar_stop(g_rc);
    servers_start(j);
  } else if (f[0] == "routes") {
    j.raw("reg", routesj(g_reg)).raw("masa", routesj(g_masa));
    j.raw("regconf", confj(g_reg)).raw("masaconf", confj(g_masa));
  }
  j.raw("calls", "[" + g_calls + "]");
  return j.done();
}
static void set_iv(const Args &a, int step) {
  g_iv.clear();
  for (auto &s : a.all("iv")) { // "step:hop|kind|hex"
    auto f = split(s);
    size_t c = f[0].find(':');
    std::string w = f[0].substr(0, c);
    if (w == "*" || atoi(w.c_str()) == step)
      g_iv.push_back({f[0].substr(c + 1), f[1], unhex(f[2])});
  }
}
// The steps, many times over, and what is held after each round
OP(meter) {
  J j;
  std::string st = session_start(a);
  j.raw("start", st);
  int rounds = (int)a.num("rounds", 1);
  std::vector<std::array<size_t, 3>> h((size_t)rounds);
  std::vector<std::string> steps = a.all("s");
  std::string first;
  if (st.find("\"conf\":0") != std::string::npos) {
    set_iv(a, 0);
    for (int r = 0; r < rounds; r++) {
      progress(r);
      for (auto &s : steps) {
        std::string o = run_step(s);
        if (r == 0)
          first = o;
      }
      unlink(g_logfile.c_str());
      h[r] = held();
    }
  }
  j.raw("held", heldj(h)).raw("first", first.empty() ? "null" : first);
  return j.done();
}
OP(flow) {
  J j;
  std::string st = session_start(a);
  j.raw("start", st);
  J out('[');
  if (st.find("\"conf\":0") != std::string::npos) {
    int n = 0;
    for (auto &s : a.all("s")) {
      progress(n);
      set_iv(a, n);
      out.item(run_step(s));
      n++;
    }
    progress(1000000);
    masa_stop(g_mc);
    registrar_stop(g_rc);
    free_config_content(&g_conf);
  }
  j.raw("steps", out.done());
  j.num("stops", g_stops);
  return j.done();
}

// Many clients at once: the first n steps (requests) run in threads, the rest after
// them. plan= runs them one at a time (sched.cpp), else they run freely.
OP(conc) {
  J j;
  sched::record(true);
  std::string st = session_start(a);
  sched::record(false);
  j.raw("start", st);
  J out('[');
  if (st.find("\"conf\":0") != std::string::npos) {
    auto steps = a.all("s");
    size_t n = (size_t)a.num("n", steps.size());
    int threads = (int)a.num("threads", n);
    bool planned = a.has("plan");
    set_iv(a, 0);
    std::vector<std::string> res(n);
    std::atomic<int> ready(0);
    if (planned)
      sched::setup(threads, a.get("plan"));
    g_free = !planned;
    std::vector<std::thread> th;
    for (int t = 0; t < threads; t++)
      th.emplace_back([&, t] {
        if (planned)
          sched::enter(t);
        else {
          ready++;
          while (ready < threads)
            std::this_thread::yield();
        }
        for (size_t i = t; i < n; i += threads)
          res[i] = run_step(steps[i]);
        if (planned)
          sched::leave();
      });
    if (planned)
      sched::watch();
    for (auto &t : th)
      t.join();
    g_free = false;
    if (planned) {
      sched::stop();
      J p('['), k('[');
      for (int t = 0; t < threads; t++) {
        p.item(std::to_string(sched::count(t)));
        k.item("\"" + sched::kind(t) + "\"");
      }
      j.raw("points", p.done()).raw("kinds", k.done());
    }
    for (auto &r : res)
      out.item(r);
    for (size_t i = n; i < steps.size(); i++) {
      set_iv(a, (int)i);
      out.item(run_step(steps[i]));
    }
    masa_stop(g_mc);
    registrar_stop(g_rc);
    free_config_content(&g_conf);
  }
  j.raw("steps", out.done());
  return j.done();
}

// ---- configuration
static std::string jlistpaths(BinaryArrayList *l) {
  if (!l)
    return "null";
  J a('[');
  BinaryArrayList *el;
  dl_list_for_each(el, &l->list, BinaryArrayList, list) {
    // path bytes up to its terminator; length as stored
    Bytes b((char *)el->arr, el->length);
    a.itemhex(b.c_str());
  }
  return a.done();
}
OP(cfg_load) {
  CStr conf(a, "conf");
  brski_config c;
  memset(&c, 0, sizeof c);
  int rc = load_brski_config(conf.p, &c);
  J j;
  j.num("rc", rc);
  if (rc >= 0) {
    J o;
    auto f = [&](const char *k, const char *v) {
      v ? o.hex(k, v) : o.null(k);
    };
    auto l = [&](const char *k, BinaryArrayList *v) {
      o.raw(k, jlistpaths(v));
    };
    f("p.createdOn", c.pconf.created_on);
    f("p.serialNumber", c.pconf.serial_number);
    f("p.nonce", c.pconf.nonce);
    f("p.idevidCertPath", c.pconf.idevid_cert_path);
    f("p.idevidKeyPath", c.pconf.idevid_key_path);
    f("p.idevidCACertPath", c.pconf.idevid_ca_cert_path);
    f("p.cmsSignCertPath", c.pconf.cms_sign_cert_path);
    f("p.cmsSignKeyPath", c.pconf.cms_sign_key_path);
    l("p.cmsAdditionalCertPath", c.pconf.cms_add_certs_paths);
    l("p.cmsVerifyCertPath", c.pconf.cms_verify_certs_paths);
    l("p.cmsVerifyStorePath", c.pconf.cms_verify_store_paths);
    f("r.bindAddress", c.rconf.bind_address);
    o.num("r.port", c.rconf.port);
    f("r.tlsCertPath", c.rconf.tls_cert_path);
    f("r.tlsKeyPath", c.rconf.tls_key_path);
    f("r.tlsCACertPath", c.rconf.tls_ca_cert_path);
    f("r.tlsCAKeyPath", c.rconf.tls_ca_key_path);
    f("r.cmsSignCertPath", c.rconf.cms_sign_cert_path);
    f("r.cmsSignKeyPath", c.rconf.cms_sign_key_path);
    l("r.cmsAdditionalCertPath", c.rconf.cms_add_certs_paths);
    l("r.cmsVerifyCertPath", c.rconf.cms_verify_certs_paths);
    l("r.cmsVerifyStorePath", c.rconf.cms_verify_store_paths);
    f("m.bindAddress", c.mconf.bind_address);
    o.num("m.port", c.mconf.port);
    f("m.expiresOn", c.mconf.expires_on);
    f("m.ldevidCACertPath", c.mconf.ldevid_ca_cert_path);
    f("m.tlsCertPath", c.mconf.tls_cert_path);
    f("m.tlsKeyPath", c.mconf.tls_key_path);
    f("m.tlsCACertPath", c.mconf.tls_ca_cert_path);
    f("m.cmsSignCertPath", c.mconf.cms_sign_cert_path);
    f("m.cmsSignKeyPath", c.mconf.cms_sign_key_path);
    l("m.cmsAdditionalCertPath", c.mconf.cms_add_certs_paths);
    l("m.cmsVerifyCertPath", c.mconf.cms_verify_certs_paths);
    l("m.cmsVerifyStorePath", c.mconf.cms_verify_store_paths);
    j.raw("c", o.done());
    free_config_content(&c);
  }
  return j.done();
}
// p=path*: load_cert_files
OP(cfg_certs) {
  BinaryArrayList *paths = nullptr, *out = nullptr;
  if (a.has("p") || a.has("empty")) {
    paths = init_array_list();
    for (auto &s : a.all("p")) {
      CStr c(s);
      push_array_list(paths, (uint8_t *)c.p, s.size() + 1, 0);
    }
  }
  int rc = load_cert_files(paths, &out);
  J j;
  j.num("rc", rc);
  if (rc >= 0)
    j.raw("out", jlist(out));
  if (rc >= 0 || a.has("freeout"))
    free_array_list(out);
  free_array_list(paths);
  return j.done();
}
