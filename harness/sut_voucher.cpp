// Voucher artefact, codecs, lists and request functions of the code under test.
#include "sut.hpp"
#include "sched.hpp"

static const VoucherAttributes TIMES[] = {ATTR_CREATED_ON, ATTR_EXPIRES_ON,
                                          ATTR_LAST_RENEWAL_DATE};
static const VoucherAttributes ARRS[] = {
    ATTR_IDEVID_ISSUER, ATTR_PINNED_DOMAIN_CERT, ATTR_NONCE,
    ATTR_PRIOR_SIGNED_VOUCHER_REQUEST, ATTR_PROXIMITY_REGISTRAR_CERT};
// names of this driver, not of the code under test
static const char *NAME[] = {"created", "expires", "assertion", "serial",
                             "issuer",  "pinned",  "revchk",    "nonce",
                             "renewal", "prior",   "proximity"};
static VoucherAttributes attr_of(const std::string &n) {
  for (int i = 0; i < 11; i++)
    if (n == NAME[i])
      return (VoucherAttributes)(ATTR_CREATED_ON + i);
  return (VoucherAttributes)strtol(n.c_str(), nullptr, 10);
}

std::string jvoucher(Voucher *v) {
  J j;
  J set('[');
  for (int i = 0; i < 11; i++)
    if (is_attr_voucher_nonempty(v, attr_of(NAME[i])))
      set.item(std::string("\"") + NAME[i] + '"');
  j.raw("set", set.done());
  for (auto t : TIMES)
    j.raw(NAME[t], jtm(get_attr_time_voucher(v, t)));
  j.num("assertion", *get_attr_enum_voucher(v, ATTR_ASSERTION));
  const char *const *s = get_attr_str_voucher(v, ATTR_SERIAL_NUMBER);
  if (s && *s)
    j.hex("serial", *s);
  else
    j.null("serial");
  j.boolean("revchk",
            *get_attr_bool_voucher(v, ATTR_DOMAIN_CERT_REVOCATION_CHECKS));
  for (auto t : ARRS)
    j.raw(NAME[t], jba(get_attr_array_voucher(v, t)));
  return j.done();
}

// one step "verb|attr|valuehex": returns JSON of the observation
static std::string vstep(Voucher *v, const std::string &st) {
  size_t p1 = st.find('|'), p2 = st.find('|', p1 + 1);
  std::string verb = st.substr(0, p1), an = st.substr(p1 + 1, p2 - p1 - 1);
  std::string raw = st.substr(p2 + 1);
  bool nullv = raw == "NULL";
  Bytes val = nullv ? "" : unhex(raw);
  VoucherAttributes at = attr_of(an);
  J j;
  int rc = 0;
  if (verb == "bool")
    rc = set_attr_bool_voucher(v, at, val == "1");
  else if (verb == "time") {
    struct tm t = parse_tm(val);
    rc = set_attr_time_voucher(v, at, &t);
    memset(&t, 0x5a, sizeof t); // the voucher must not keep our memory
  } else if (verb == "enum")
    rc = set_attr_enum_voucher(v, at, atoi(val.c_str()));
  else if (verb == "str") {
    CStr s(val);
    rc = set_attr_str_voucher(v, at, nullv ? nullptr : s.p);
  } else if (verb == "arr") {
    BA b(val);
    rc = set_attr_array_voucher(v, at, nullv ? nullptr : &b.v);
  } else if (verb == "arr00") {
    BinaryArray e = {nullptr, 0};
    rc = set_attr_array_voucher(v, at, &e);
  } else if (verb == "gbool")
    rc = set_attr_voucher(v, at, val == "1");
  else if (verb == "gtime") {
    struct tm t = parse_tm(val);
    rc = set_attr_voucher(v, at, &t);
    memset(&t, 0x5a, sizeof t);
  } else if (verb == "genum")
    rc = set_attr_voucher(v, at, atoi(val.c_str()));
  else if (verb == "gstr") {
    CStr s(val);
    rc = set_attr_voucher(v, at, nullv ? nullptr : s.p);
  } else if (verb == "garr") {
    BA b(val);
    rc = set_attr_voucher(v, at, nullv ? nullptr : &b.v);
  } else if (verb == "clear")
    rc = clear_attr_voucher(v, at);
  else if (verb == "getbool") {
    const bool *b = get_attr_bool_voucher(v, at);
    b ? j.boolean("v", *b) : j.null("v");
  } else if (verb == "gettime") {
    const struct tm *t = get_attr_time_voucher(v, at);
    t ? j.raw("v", jtm(t)) : j.null("v");
  } else if (verb == "getenum") {
    const int *b = get_attr_enum_voucher(v, at);
    b ? j.num("v", *b) : j.null("v");
  } else if (verb == "getstr") {
    const char *const *b = get_attr_str_voucher(v, at);
    if (b)
      *b ? j.hex("v", *b) : j.str("v", "unset");
    else
      j.null("v");
  } else if (verb == "getarr") {
    const BinaryArray *b = get_attr_array_voucher(v, at);
    if (b)
      b->array ? j.hex("v", bytes_of(b)) : j.str("v", "unset");
    else
      j.null("v");
  } else if (verb == "has")
    j.boolean("v", is_attr_voucher_nonempty(v, at));
  else if (verb == "ser") {
    char *s = serialize_voucher(v);
    s ? j.hex("v", s) : j.null("v");
    free(s);
  } else if (verb == "dump")
    j.raw("v", v ? jvoucher(v) : "null");
  j.num("rc", rc);
  return j.done();
}

// s=step*, [nullv=1]
OP(v_seq) {
  Voucher *v = a.has("nullv") ? nullptr : init_voucher();
  J out('[');
  int n = 0;
  for (auto &s : a.all("s")) {
    progress(n++);
    out.item(vstep(v, s));
  }
  progress(1000000);
  J j;
  j.raw("steps", out.done());
  j.raw("end", v ? jvoucher(v) : "null");
  free_voucher(v);
  return j.done();
}

OP(v_deser) {
  Bytes js = a.get("json");
  uint8_t *h = a.has("json") ? heapcopy(js) : nullptr;
  Voucher *v = deserialize_voucher(h, js.size());
  J j;
  j.raw("v", v ? jvoucher(v) : "null");
  if (v && a.has("ser")) {
    char *s = serialize_voucher(v);
    s ? j.hex("ser", s) : j.null("ser");
    free(s);
  }
  free(h); // the voucher must not point into the input
  if (v)
    j.raw("again", jvoucher(v));
  free_voucher(v);
  return j.done();
}

static BinaryArray *sign_v(const Args &a, Voucher *v) {
  BA cert(a, "cert"), key(a, "key");
  Arena certs(a, "certs");
  std::string k = a.get("kind", "auto");
  if (k == "ec")
    return sign_eccms_voucher(v, cert.p(), key.p(), certs.p);
  if (k == "rsa")
    return sign_rsacms_voucher(v, cert.p(), key.p(), certs.p);
  return sign_cms_voucher(v, cert.p(), key.p(), certs.p);
}
// s=step*, cert, key, certs*, kind
OP(v_sign) {
  Voucher *v = a.has("nullv") ? nullptr : init_voucher();
  for (auto &s : a.all("s"))
    vstep(v, s);
  BinaryArray *c = sign_v(a, v);
  J j;
  j.raw("cms", jba(c));
  free_binary_array(c);
  free_voucher(v);
  return j.done();
}
OP(v_verify) {
  BA cms(a, "cms");
  Arena certs(a, "certs"), store(a, "store", "crl");
  BinaryArrayList *outc = nullptr;
  bool want = !a.has("noout");
  Voucher *v =
      verify_cms_voucher(cms.p(), certs.p, store.p, want ? &outc : nullptr);
  J j;
  j.raw("v", v ? jvoucher(v) : "null");
  if (v)
    j.raw("out", jlist(outc));
  free_array_list(outc);
  free_voucher(v);
  return j.done();
}

// ---- codecs
OP(b64e) {
  Bytes in = a.get("in");
  uint8_t *h = heapcopy(in), *o = nullptr;
  ssize_t n = serialize_array2base64str(h, in.size(), &o);
  J j;
  j.num("n", n);
  if (n >= 0) {
    j.hex("out", Bytes((char *)o, n));
    j.boolean("nul", o[n] == 0);
  }
  free(o);
  free(h);
  return j.done();
}
OP(b64d) {
  Bytes in = a.get("in");
  uint8_t *h = heapcopy(in), *o = nullptr;
  ssize_t n = serialize_base64str2array(h, in.size(), &o);
  J j;
  j.num("n", n);
  j.boolean("null", o == nullptr);
  if (n >= 0)
    j.hex("out", Bytes((char *)o, n));
  free(o); // a dangling pointer after a failure is a double free here
  free(h);
  return j.done();
}
OP(t2s) {
  struct tm t = parse_tm(a.get("t"));
  char *s = serialize_time2str(&t);
  J j;
  s ? j.hex("out", s) : j.null("out");
  free(s);
  return j.done();
}
OP(s2t) {
  CStr s(a, "in");
  struct tm t;
  memset(&t, 0x5a, sizeof t);
  int rc = serialize_str2time(s.p, &t);
  J j;
  j.num("rc", rc);
  if (rc >= 0) {
    j.raw("t", jtm(&t));
    char *b = serialize_time2str(&t);
    b ? j.hex("again", b) : j.null("again");
    free(b);
  }
  return j.done();
}
OP(b2s) {
  char *s = serialize_bool2str(a.get("in") == "1");
  J j;
  j.hex("out", s);
  free(s);
  return j.done();
}
OP(s2b) {
  Bytes in = a.get("in");
  uint8_t *h = heapcopy(in);
  int rc = serialize_str2bool(a.has("in") ? (char *)h : nullptr, in.size());
  free(h);
  J j;
  j.num("rc", rc);
  return j.done();
}
// the clock the code under test reads can be set (fake=<seconds>)
static bool fake_on = false, fake_used = false;
static time_t fake_time;
extern "C" time_t __real_time(time_t *);
extern "C" time_t __wrap_time(time_t *t) {
  sched::point("time");
  if (!fake_on)
    return __real_time(t);
  fake_used = true;
  if (t)
    *t = fake_time;
  return fake_time;
}
OP(now) {
  time_t before = time(nullptr);
  if (a.has("fake")) {
    fake_time = (time_t)strtoll(a.get("fake").c_str(), nullptr, 10);
    fake_on = true;
    fake_used = false;
  }
  char *s = serialize_localtime();
  fake_on = false;
  time_t after = time(nullptr);
  J j;
  if (a.has("fake") && fake_used)
    before = after = fake_time;
  j.num("before", before);
  j.num("after", after);
  s ? j.hex("out", s) : j.null("out");
  free(s);
  return j.done();
}
OP(esc) {
  CStr s(a, "in");
  char *o = serialize_escapestr(s.p);
  J j;
  o ? j.hex("out", o) : j.null("out");
  free(o);
  return j.done();
}

// ---- containers
// s= "push|hex|flag", "pushnull", "len", "dump", "clobber"; list of byte arrays
OP(list_seq) {
  BinaryArrayList *l = init_array_list();
  J out('[');
  int n = 0;
  for (auto &s : a.all("s")) {
    progress(n++);
    J j;
    if (s.rfind("push|", 0) == 0) {
      size_t p = s.find('|', 5);
      Bytes b = unhex(s.substr(5, p - 5));
      uint8_t *h = heapcopy(b);
      j.num("rc", push_array_list(l, h, b.size(), atoi(s.c_str() + p + 1)));
      memset(h, 0x5a, b.size());
      free(h);
    } else if (s == "pushnull")
      j.num("rc", push_array_list(l, nullptr, 4, 0));
    else if (s == "nolist") {
      uint8_t b[1] = {1};
      j.num("rc", push_array_list(nullptr, b, 1, 0));
    } else if (s == "len")
      j.num("v", dl_list_len(&l->list));
    else if (s == "first" || s == "last") {
      BinaryArrayList *e = s == "first"
                               ? dl_list_first(&l->list, BinaryArrayList, list)
                               : dl_list_last(&l->list, BinaryArrayList, list);
      e ? j.hex("v", Bytes((char *)e->arr, e->length)) : j.null("v");
    } else if (s == "dump") {
      J d('[');
      BinaryArrayList *el;
      dl_list_for_each(el, &l->list, BinaryArrayList, list) {
        d.item("[\"" + hexs(el->arr, el->length) + "\"," +
               std::to_string(el->flags) + "]");
      }
      j.raw("v", d.done());
    }
    out.item(j.done());
  }
  free_array_list(l);
  J j;
  j.raw("steps", out.done());
  return j.done();
}
OP(kv_seq) {
  keyvalue_list *l = init_keyvalue_list();
  J out('[');
  for (auto &s : a.all("s")) {
    J j;
    if (s.rfind("push|", 0) == 0) {
      size_t p = s.find('|', 5);
      std::string ks = s.substr(5, p - 5), vs = s.substr(p + 1);
      CStr k(unhex(ks)), v(unhex(vs));
      j.num("rc", push_keyvalue_list(l, ks == "NULL" ? nullptr : k.p,
                                     vs == "NULL" ? nullptr : v.p));
      memset(k.p, 'Z', strlen(k.p));
      memset(v.p, 'Z', strlen(v.p));
    } else if (s == "len")
      j.num("v", dl_list_len(&l->list));
    else if (s == "dump") {
      J d('[');
      keyvalue_list *el;
      dl_list_for_each(el, &l->list, keyvalue_list, list) {
        d.item("[\"" + hexs(el->key, strlen(el->key)) + "\",\"" +
               hexs(el->value, strlen(el->value)) + "\"]");
      }
      j.raw("v", d.done());
    } else if (s == "json") {
      char *o = serialize_keyvalue2json(l);
      o ? j.hex("v", o) : j.null("v");
      free(o);
    }
    out.item(j.done());
  }
  free_keyvalue_list(l);
  J j;
  j.raw("steps", out.done());
  return j.done();
}
// a=, b= (absent: NULL): copy, compare
OP(ba_ops) {
  BA x(a, "a"), y(a, "b");
  J j;
  j.num("cmp", compare_binary_array(x.p(), y.p()));
  j.num("cmp2", compare_binary_array(y.p(), x.p()));
  BinaryArray d = {};
  int rc = copy_binary_array(&d, x.p());
  j.num("copy", rc);
  j.boolean("shared", x.p() && d.array == x.v.array);
  if (x.p() && x.v.array)
    memset(x.v.array, 0x5a, x.v.length);
  j.hex("dst", bytes_of(&d));
  free_binary_array_content(&d);
  j.boolean("freed", d.array == nullptr && d.length == 0);
  free_binary_array_content(&d);
  j.num("copynull", copy_binary_array(nullptr, x.p()));
  return j.done();
}

// ---- request functions
OP(r_pvr) {
  struct tm t = parse_tm(a.get("created"));
  CStr serial(a, "serial");
  BA nonce(a, "nonce"), tls(a, "tls"), cert(a, "cert"), key(a, "key");
  Arena add(a, "add");
  BinaryArray *c = sign_pledge_voucher_request(&t, serial.p, nonce.p(), tls.p(),
                                               cert.p(), key.p(), add.p);
  J j;
  j.raw("cms", jba(c));
  free_binary_array(c);
  return j.done();
}
OP(r_rvr) {
  struct tm t = parse_tm(a.get("created"));
  CStr serial(a, "serial");
  BA pvr(a, "pvr"), issuer(a, "issuer"), tls(a, "tls"), cert(a, "cert"),
      key(a, "key");
  Arena vc(a, "vcerts"), vs(a, "vstore", "vcrl"), add(a, "add");
  BinaryArray *c = sign_voucher_request(pvr.p(), &t, serial.p, issuer.p(),
                                        tls.p(), cert.p(), key.p(), vc.p, vs.p,
                                        add.p);
  J j;
  j.raw("cms", jba(c));
  free_binary_array(c);
  return j.done();
}
struct CbRec {
  int calls = 0, rc = 0;
  Bytes serial;
  bool serialnull = true;
  std::string certs = "null";
  Bytes pinned;
  int mode = 0; // 0 pin, 1 leave empty
};
static int cb_fn(const char *serial, const BinaryArrayList *certs, void *ctx,
                 BinaryArray *pinned) {
  CbRec *r = (CbRec *)ctx;
  r->calls++;
  r->serialnull = !serial;
  if (serial)
    r->serial = serial;
  r->certs = jlist((BinaryArrayList *)certs);
  if (r->mode == 0) {
    pinned->array = (uint8_t *)malloc(r->pinned.size() ? r->pinned.size() : 1);
    memcpy(pinned->array, r->pinned.data(), r->pinned.size());
    pinned->length = r->pinned.size();
    if (r->rc < 0) { // a refusing callback leaves nothing behind
      free(pinned->array);
      pinned->array = nullptr;
      pinned->length = 0;
    }
  }
  return r->rc;
}
OP(r_masa) {
  struct tm t = parse_tm(a.get("expires"));
  BA rvr(a, "rvr"), cert(a, "cert"), key(a, "key");
  Arena rc(a, "rcerts"), rs(a, "rstore", "rcrl"), pc(a, "pcerts"),
      ps(a, "pstore", "pcrl"), add(a, "add");
  CbRec rec;
  rec.rc = (int)a.num("cbrc", 0);
  rec.pinned = a.get("pinned");
  rec.mode = (int)a.num("cbmode", 0);
  BinaryArray *c = sign_masa_pledge_voucher(
      rvr.p(), a.has("expires") ? &t : nullptr, a.has("nocb") ? nullptr : cb_fn,
      &rec, cert.p(), key.p(), rc.p, rs.p, pc.p, ps.p, add.p);
  J j;
  j.raw("cms", jba(c));
  j.num("calls", rec.calls);
  rec.serialnull ? j.null("cbserial") : j.hex("cbserial", rec.serial);
  j.raw("cbcerts", rec.certs);
  free_binary_array(c);
  return j.done();
}
OP(r_verify) {
  CStr serial(a, "serial");
  BA cms(a, "cms"), nonce(a, "nonce"), tls(a, "tls");
  Arena dom(a, "dom", "domcrl"), vc(a, "vcerts"), vs(a, "vstore", "vcrl");
  BinaryArrayList *outc = nullptr;
  BinaryArray pinned = {};
  int rc = verify_masa_pledge_voucher(
      cms.p(), serial.p, nonce.p(), tls.p(), dom.p, vc.p, vs.p,
      a.has("noout") ? nullptr : &outc, &pinned);
  J j;
  j.num("rc", rc);
  j.raw("pinned", jba(&pinned));
  j.raw("out", rc >= 0 ? jlist(outc) : "null");
  free_binary_array_content(&pinned);
  free_array_list(outc);
  return j.done();
}
