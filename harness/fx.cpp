// Fixture operations: keys, certificates, CRLs and CMS structures made and taken
// apart with OpenSSL directly. Nothing here calls the code under test, so the
// oracle side of every comparison is independent of it.
#include "util.hpp"
#include "fx.hpp"
#include <openssl/bio.h>
#include <openssl/cms.h>
#include <openssl/ec.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <openssl/x509_vfy.h>
#include <openssl/x509v3.h>
#include <time.h>

static Bytes der_of(X509 *x) {
  unsigned char *o = nullptr;
  int n = i2d_X509(x, &o);
  Bytes b((char *)o, n);
  OPENSSL_free(o);
  return b;
}
static Bytes der_of_key(EVP_PKEY *k) {
  unsigned char *o = nullptr;
  int n = i2d_PrivateKey(k, &o);
  Bytes b((char *)o, n);
  OPENSSL_free(o);
  return b;
}
Bytes x509_der(X509 *x) { return der_of(x); }
X509 *fx_x509(const Bytes &d) {
  const unsigned char *p = (const unsigned char *)d.data();
  return d2i_X509(nullptr, &p, d.size());
}
EVP_PKEY *fx_pkey(const Bytes &d) {
  const unsigned char *p = (const unsigned char *)d.data();
  return d2i_AutoPrivateKey(nullptr, &p, d.size());
}
static Bytes bio_bytes(BIO *b) {
  char *p = nullptr;
  long n = BIO_get_mem_data(b, &p);
  return Bytes(p, n);
}

static std::string err() {
  J j;
  char b[256];
  ERR_error_string_n(ERR_get_error(), b, sizeof b);
  j.hex("error", b);
  return j.done();
}

OP(fx_key) {
  std::string t = a.get("type", "ec");
  EVP_PKEY *k = nullptr;
  if (t == "ec")
    k = EVP_EC_gen("P-256");
  else if (t == "ec384")
    k = EVP_EC_gen("P-384");
  else
    k = EVP_RSA_gen(2048);
  J j;
  j.hex("der", der_of_key(k));
  EVP_PKEY_free(k);
  return j.done();
}

static X509_NAME *mkname(const std::string &spec) {
  X509_NAME *n = X509_NAME_new();
  size_t pos = 0;
  while (pos < spec.size()) {
    size_t e = spec.find('\n', pos);
    if (e == std::string::npos)
      e = spec.size();
    std::string kv = spec.substr(pos, e - pos);
    pos = e + 1;
    size_t q = kv.find('=');
    std::string v = kv.substr(q + 1);
    int type = MBSTRING_UTF8;
    if (v.compare(0, 2, "#x") == 0) { // any bytes, without OpenSSL's limits
      v = unhex(v.substr(2));
      type = V_ASN1_UTF8STRING;
    }
    X509_NAME_add_entry_by_txt(n, kv.substr(0, q).c_str(), type,
                               (const unsigned char *)v.data(), (int)v.size(),
                               -1, 0);
  }
  return n;
}
static void addext(X509 *x, X509 *issuer, int nid, const char *v) {
  X509V3_CTX c;
  X509V3_set_ctx_nodb(&c);
  X509V3_set_ctx(&c, issuer, x, nullptr, nullptr, 0);
  X509_EXTENSION *e = X509V3_EXT_conf_nid(nullptr, &c, nid, v);
  if (e) {
    X509_add_ext(x, e, -1);
    X509_EXTENSION_free(e);
  }
}

// key=subject key, subject=, [icert=, ikey=], serial=, [bc=, ku=, eku=, ski=1]
OP(fx_cert) {
  EVP_PKEY *k = fx_pkey(a.get("key"));
  X509 *ic = a.has("icert") ? fx_x509(a.get("icert")) : nullptr;
  EVP_PKEY *ik = a.has("ikey") ? fx_pkey(a.get("ikey")) : k;
  X509 *x = X509_new();
  X509_set_version(x, a.num("ver", 2));
  if (a.has("serialhex")) {
    BIGNUM *bn = nullptr;
    BN_hex2bn(&bn, a.get("serialhex").c_str());
    ASN1_INTEGER *ai = BN_to_ASN1_INTEGER(bn, nullptr);
    X509_set_serialNumber(x, ai);
    ASN1_INTEGER_free(ai);
    BN_free(bn);
  } else
    ASN1_INTEGER_set_uint64(X509_get_serialNumber(x), a.num("serial", 1));
  X509_gmtime_adj(X509_getm_notBefore(x), a.num("nb", -3600));
  X509_gmtime_adj(X509_getm_notAfter(x), a.num("na", 86400 * 365));
  X509_NAME *n = mkname(a.get("subject"));
  X509_set_subject_name(x, n);
  X509_set_issuer_name(x, ic ? X509_get_subject_name(ic) : n);
  if (a.has("issuer")) { // claim another issuer name than the signer's
    X509_NAME *in = mkname(a.get("issuer"));
    X509_set_issuer_name(x, in);
    X509_NAME_free(in);
  }
  X509_NAME_free(n);
  X509_set_pubkey(x, k);
  if (a.has("bc"))
    addext(x, ic ? ic : x, NID_basic_constraints, a.get("bc").c_str());
  if (a.has("ku"))
    addext(x, ic ? ic : x, NID_key_usage, a.get("ku").c_str());
  if (a.has("eku"))
    addext(x, ic ? ic : x, NID_ext_key_usage, a.get("eku").c_str());
  if (a.has("ski"))
    addext(x, ic ? ic : x, NID_subject_key_identifier, "hash");
  X509_sign(x, ik, EVP_sha256());
  J j;
  j.hex("der", der_of(x));
  X509_free(x);
  X509_free(ic);
  if (ik != k)
    EVP_PKEY_free(ik);
  EVP_PKEY_free(k);
  return j.done();
}

OP(fx_crl) {
  X509 *ic = fx_x509(a.get("icert"));
  EVP_PKEY *ik = fx_pkey(a.get("ikey"));
  X509_CRL *c = X509_CRL_new();
  X509_CRL_set_version(c, 1);
  X509_CRL_set_issuer_name(c, X509_get_subject_name(ic));
  ASN1_TIME *t = ASN1_TIME_new();
  X509_gmtime_adj(t, -3600);
  X509_CRL_set1_lastUpdate(c, t);
  X509_gmtime_adj(t, 86400 * 30);
  X509_CRL_set1_nextUpdate(c, t);
  for (auto &s : a.all("revoked")) {
    X509_REVOKED *r = X509_REVOKED_new();
    ASN1_INTEGER *ai = ASN1_INTEGER_new();
    ASN1_INTEGER_set_uint64(ai, strtoull(s.c_str(), nullptr, 10));
    X509_REVOKED_set_serialNumber(r, ai);
    ASN1_INTEGER_free(ai);
    X509_gmtime_adj(t, -1800);
    X509_REVOKED_set_revocationDate(r, t);
    X509_CRL_add0_revoked(c, r);
  }
  ASN1_TIME_free(t);
  X509_CRL_sort(c);
  X509_CRL_sign(c, ik, EVP_sha256());
  unsigned char *o = nullptr;
  int n = i2d_X509_CRL(c, &o);
  J j;
  j.hex("der", Bytes((char *)o, n));
  return j.done();
}

// content=, (cert=,key=)+, [extra=]*, [nocerts=1], [noattr=1], [detached=1]
OP(fx_cms) {
  Bytes content = a.get("content");
  BIO *in = BIO_new_mem_buf(content.data(), (int)content.size());
  STACK_OF(X509) *st = sk_X509_new_null();
  for (auto &e : a.all("extra"))
    sk_X509_push(st, fx_x509(e));
  unsigned fl = CMS_BINARY;
  if (a.has("nocerts"))
    fl |= CMS_NOCERTS;
  if (a.has("noattr"))
    fl |= CMS_NOATTR;
  if (a.has("detached"))
    fl |= CMS_DETACHED;
  if (a.has("skid"))
    fl |= CMS_USE_KEYID;
  auto certs = a.all("cert"), keys = a.all("key");
  CMS_ContentInfo *c =
      CMS_sign(nullptr, nullptr, st, in, fl | CMS_PARTIAL);
  if (!c)
    return err();
  for (size_t i = 0; i < certs.size(); i++) {
    EVP_PKEY *k = fx_pkey(keys[i]);
    X509 *x = fx_x509(certs[i]);
    if (!CMS_add1_signer(c, x, k, nullptr, fl | CMS_PARTIAL))
      return err();
  }
  if (!CMS_final(c, in, nullptr, fl))
    return err();
  BIO *o = BIO_new(BIO_s_mem());
  i2d_CMS_bio(o, c);
  J j;
  j.hex("der", bio_bytes(o));
  BIO_free(o);
  BIO_free(in);
  CMS_ContentInfo_free(c);
  sk_X509_pop_free(st, X509_free);
  return j.done();
}

OP(fx_cms_parse) {
  Bytes d = a.get("der");
  BIO *b = BIO_new_mem_buf(d.data(), (int)d.size());
  CMS_ContentInfo *c = d2i_CMS_bio(b, nullptr);
  J j;
  if (!c) {
    j.boolean("parsed", false);
    return j.done();
  }
  j.boolean("parsed", true);
  j.num("trailing", (long)BIO_pending(b));
  int signedd = OBJ_obj2nid(CMS_get0_type(c)) == NID_pkcs7_signed;
  j.boolean("signeddata", signedd);
  if (!signedd)
    return j.done();
  ASN1_OCTET_STRING **os = CMS_get0_content(c);
  if (os && *os)
    j.hex("content", Bytes((const char *)ASN1_STRING_get0_data(*os),
                           ASN1_STRING_length(*os)));
  else
    j.null("content");
  STACK_OF(X509) *cs = CMS_get1_certs(c);
  J ja('[');
  for (int i = 0; i < sk_X509_num(cs); i++)
    ja.itemhex(der_of(sk_X509_value(cs, i)));
  j.raw("certs", ja.done());
  STACK_OF(X509) *more = sk_X509_new_null();
  for (auto &e : a.all("extra"))
    sk_X509_push(more, fx_x509(e));
  BIO *o = BIO_new(BIO_s_mem());
  int ok = CMS_verify(c, more, nullptr, nullptr, o, CMS_NO_SIGNER_CERT_VERIFY | CMS_BINARY);
  j.boolean("sigok", ok == 1);
  ERR_clear_error();
  J js('[');
  STACK_OF(CMS_SignerInfo) *si = CMS_get0_SignerInfos(c);
  j.num("nsigners", sk_CMS_SignerInfo_num(si));
  if (ok == 1) {
    STACK_OF(X509) *sg = CMS_get0_signers(c);
    for (int i = 0; i < sk_X509_num(sg); i++)
      js.itemhex(der_of(sk_X509_value(sg, i)));
    sk_X509_free(sg);
  }
  j.raw("signers", js.done());
  BIO_free(o);
  BIO_free(b);
  sk_X509_pop_free(more, X509_free);
  sk_X509_pop_free(cs, X509_free);
  CMS_ContentInfo_free(c);
  return j.done();
}

static std::string nameJ(X509_NAME *n) {
  J a('[');
  for (int i = 0; i < X509_NAME_entry_count(n); i++) {
    X509_NAME_ENTRY *e = X509_NAME_get_entry(n, i);
    unsigned char *u = nullptr;
    int l = ASN1_STRING_to_UTF8(&u, X509_NAME_ENTRY_get_data(e));
    int nid = OBJ_obj2nid(X509_NAME_ENTRY_get_object(e));
    std::string it = std::string("[\"") + OBJ_nid2sn(nid) + "\",\"" +
                     (l < 0 ? std::string() : hexs(u, l)) + "\"]";
    a.item(it);
    OPENSSL_free(u);
  }
  return a.done();
}
static long long epoch(const ASN1_TIME *t) {
  struct tm tm;
  ASN1_TIME_to_tm(t, &tm);
  return timegm(&tm);
}

// der=, [by=cert]*: for each by, is the signature of der made with by's key
OP(fx_x509_info) {
  J j;
  X509 *x = fx_x509(a.get("der"));
  if (!x) {
    j.boolean("parsed", false);
    return j.done();
  }
  j.boolean("parsed", true);
  j.num("version", X509_get_version(x));
  BIGNUM *bn = ASN1_INTEGER_to_BN(X509_get_serialNumber(x), nullptr);
  char *h = BN_bn2hex(bn);
  j.str("serial", h);
  OPENSSL_free(h);
  BN_free(bn);
  j.raw("subject", nameJ(X509_get_subject_name(x)));
  j.raw("issuer", nameJ(X509_get_issuer_name(x)));
  /* whether the names are of known string types, and the key is usable */
  bool usable = X509_get0_pubkey(x) != nullptr;
  for (auto *nm : {X509_get_subject_name(x), X509_get_issuer_name(x)})
    for (int k = 0; k < X509_NAME_entry_count(nm); k++) {
      unsigned char *u = nullptr;
      if (ASN1_STRING_to_UTF8(
              &u, X509_NAME_ENTRY_get_data(X509_NAME_get_entry(nm, k))) < 0)
        usable = false;
      OPENSSL_free(u);
    }
  ERR_clear_error();
  j.boolean("usable", usable);
  BIO *b = BIO_new(BIO_s_mem());
  X509_NAME_print_ex(b, X509_get_issuer_name(x), 0, XN_FLAG_ONELINE);
  j.hex("issuer_oneline", bio_bytes(b));
  BIO_free(b);
  j.num("nb", epoch(X509_get0_notBefore(x)));
  j.num("na", epoch(X509_get0_notAfter(x)));
  unsigned char *o = nullptr;
  int n = i2d_X509_PUBKEY(X509_get_X509_PUBKEY(x), &o);
  j.hex("pub", Bytes((char *)o, n));
  OPENSSL_free(o);
  int crit = -1;
  BASIC_CONSTRAINTS *bc = (BASIC_CONSTRAINTS *)X509_get_ext_d2i(
      x, NID_basic_constraints, &crit, nullptr);
  j.boolean("bc", bc != nullptr);
  j.boolean("bc_ca", bc && bc->ca);
  j.boolean("bc_crit", crit == 1);
  j.num("bc_pathlen",
        bc && bc->pathlen ? ASN1_INTEGER_get(bc->pathlen) : -1);
  BASIC_CONSTRAINTS_free(bc);
  j.num("nexts", X509_get_ext_count(x));
  j.num("sigalg", X509_get_signature_nid(x));
  J ja('[');
  for (auto &by : a.all("by")) {
    X509 *s = fx_x509(by);
    ja.item(s && X509_verify(x, X509_get0_pubkey(s)) == 1 ? "true" : "false");
    ERR_clear_error();
    X509_free(s);
  }
  j.raw("by", ja.done());
  X509_free(x);
  return j.done();
}

OP(fx_keyinfo) {
  J j;
  EVP_PKEY *k = fx_pkey(a.get("der"));
  if (!k) {
    j.boolean("parsed", false);
    return j.done();
  }
  j.boolean("parsed", true);
  j.num("id", EVP_PKEY_base_id(k));
  j.num("bits", EVP_PKEY_bits(k));
  char g[64] = "";
  size_t gl = 0;
  EVP_PKEY_get_group_name(k, g, sizeof g, &gl);
  j.str("group", g);
  unsigned char *o = nullptr;
  int n = i2d_PUBKEY(k, &o);
  j.hex("pub", Bytes((char *)o, n));
  OPENSSL_free(o);
  EVP_PKEY_free(k);
  return j.done();
}

// der=certificate, mode=name|pubkey|sig|ext : one change to a certificate that
// keeps its old signature
OP(fx_forge) {
  X509 *x = fx_x509(a.get("der"));
  std::string m = a.get("mode");
  if (m == "sig") {
    Bytes d = a.get("der");
    d[d.size() - 1] ^= 1;
    J j;
    j.hex("der", d);
    return j.done();
  }
  J j;
  j.hex("der", der_of(x));
  return j.done();
}

// Does a leaf chain to a PEM trust bundle the way a TLS peer's default purpose
// checks see it
static bool tls_chain(const std::string &pem, X509 *leaf, const char *purpose) {
  BIO *b = BIO_new_mem_buf(pem.data(), (int)pem.size());
  X509_STORE *s = X509_STORE_new();
  int n = 0;
  STACK_OF(X509_INFO) *in = PEM_X509_INFO_read_bio(b, nullptr, nullptr, nullptr);
  for (int i = 0; in && i < sk_X509_INFO_num(in); i++) {
    X509_INFO *e = sk_X509_INFO_value(in, i);
    if (e->x509) {
      X509_STORE_add_cert(s, e->x509);
      n++;
    }
  }
  sk_X509_INFO_pop_free(in, X509_INFO_free);
  ERR_clear_error();
  BIO_free(b);
  X509_STORE_CTX *c = X509_STORE_CTX_new();
  X509_STORE_CTX_init(c, s, leaf, nullptr);
  X509_STORE_CTX_set_default(c, purpose);
  int ok = n && X509_verify_cert(c) == 1;
  X509_STORE_CTX_free(c);
  X509_STORE_free(s);
  ERR_clear_error();
  return ok == 1;
}
bool fx_tls_trusts(const std::string &pem, X509 *leaf) {
  return tls_chain(pem, leaf, "ssl_server");
}
bool fx_tls_client_ok(const std::string &pem, X509 *leaf) {
  return tls_chain(pem, leaf, "ssl_client");
}
OP(fx_tls_trusts) {
  X509 *l = fx_x509(a.get("der"));
  J j;
  j.boolean("ok", l && fx_tls_trusts(a.get("pem"), l));
  X509_free(l);
  return j.done();
}
