From e4265a2812d660152ddda177319a22478a38d3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 01/32] fix: refuse a pledge voucher-request without a
 serial-number instead of crashing

---
 src/voucher/request.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index 59bab6b..8358f64 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -130,7 +130,7 @@ sign_voucher_request(const struct BinaryArray *pledge_voucher_request_cms,
    * cert serial number */
   const char *const *pledge_serial_number =
       get_attr_str_voucher(pledge_voucher_request, ATTR_SERIAL_NUMBER);
-  if (pledge_serial_number == NULL) {
+  if (pledge_serial_number == NULL || *pledge_serial_number == NULL) {
     log_error("get_attr_str_voucher fail");
     free_voucher(pledge_voucher_request);
     return NULL;
-- 
2.43.0


From 87cd0c8b2b4a4bd4c4a38884511d3cb7ee9f2059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 02/32] fix: leave no dangling output buffer when base64
 padding is invalid

---
 src/voucher/serialize.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/voucher/serialize.c b/src/voucher/serialize.c
index 32e0925..ba92a0c 100644
--- a/src/voucher/serialize.c
+++ b/src/voucher/serialize.c
@@ -242,6 +242,7 @@ static ssize_t base64_gen_decode(const uint8_t *src, const size_t len,
         } else {
           log_error("Invalid padding");
           sys_free(*out);
+          *out = NULL;
           return -1;
         }
         break;
-- 
2.43.0


From 903ebd8a9697684389d3eeeaa9d960a7f4b003fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 03/32] fix: notice base64 decoding failures that an unsigned
 length hid

---
 src/brski/brski.cpp                   |  7 ++++---
 src/brski/masa/masa_api.cpp           |  8 +++++---
 src/brski/pledge/pledge_request.cpp   | 23 ++++++++++++++---------
 src/brski/registrar/registrar_api.cpp |  8 +++++---
 4 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 92ab7d3..e9020e9 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -427,12 +427,13 @@ int main(int argc, char *argv[]) {
 
       struct BinaryArray masa_pledge_voucher_cms = {};
 
-      if ((masa_pledge_voucher_cms.length =
-               serialize_base64str2array((const uint8_t *)inbuf, sz,
-                                         &masa_pledge_voucher_cms.array)) < 0) {
+      ssize_t cms_length = serialize_base64str2array(
+          (const uint8_t *)inbuf, sz, &masa_pledge_voucher_cms.array);
+      if (cms_length < 0) {
         log_errno("serialize_base64str2array fail");
         return EXIT_FAILURE;
       }
+      masa_pledge_voucher_cms.length = cms_length;
 
       struct BinaryArray *registrar_tls_cert =
           file_to_x509buf(in_filename.c_str());
diff --git a/src/brski/masa/masa_api.cpp b/src/brski/masa/masa_api.cpp
index 4782073..ab63aba 100644
--- a/src/brski/masa/masa_api.cpp
+++ b/src/brski/masa/masa_api.cpp
@@ -74,6 +74,7 @@ int masa_requestvoucher(const RequestHeader &request_header,
   struct BinaryArray *masa_pledge_voucher = NULL;
   char *base64 = NULL;
   const char *cms_str = request_body.c_str();
+  ssize_t cms_length;
 
   log_trace("masa_requestvoucher:");
   response_header["Content-Type"] = "text/plain";
@@ -84,12 +85,13 @@ int masa_requestvoucher(const RequestHeader &request_header,
     goto masa_requestvoucher_fail;
   }
 
-  if ((voucher_request_cms.length =
-           serialize_base64str2array((const uint8_t *)cms_str, strlen(cms_str),
-                                     &voucher_request_cms.array)) < 0) {
+  cms_length = serialize_base64str2array(
+      (const uint8_t *)cms_str, strlen(cms_str), &voucher_request_cms.array);
+  if (cms_length < 0) {
     log_errno("serialize_base64str2array fail");
     goto masa_requestvoucher_fail;
   }
+  voucher_request_cms.length = cms_length;
 
   if ((context->ldevid_ca_cert = file_to_x509buf(mconf->ldevid_ca_cert_path)) ==
       NULL) {
diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index 5f57818..be84a85 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -177,13 +177,15 @@ int post_voucher_pledge_request(struct pledge_config *pconf,
   const char *masa_pledge_voucher_str = http_res.response.c_str();
   struct BinaryArray masa_pledge_voucher_cms = {};
 
-  if ((masa_pledge_voucher_cms.length =
-           serialize_base64str2array((const uint8_t *)masa_pledge_voucher_str,
-                                     strlen(masa_pledge_voucher_str),
-                                     &masa_pledge_voucher_cms.array)) < 0) {
+  ssize_t cms_length =
+      serialize_base64str2array((const uint8_t *)masa_pledge_voucher_str,
+                                strlen(masa_pledge_voucher_str),
+                                &masa_pledge_voucher_cms.array);
+  if (cms_length < 0) {
     log_errno("serialize_base64str2array fail");
     goto post_voucher_pledge_request_fail;
   }
+  masa_pledge_voucher_cms.length = cms_length;
 
   if (verify_masa_pledge_request(pconf, &masa_pledge_voucher_cms,
                                  registrar_tls_cert, pinned_domain_cert) < 0) {
@@ -224,6 +226,7 @@ int generate_sign_cert(struct BinaryArray *scert_cert,
                        struct BinaryArray *scert_key) {
   uint8_t rand[8];
   char rands[17];
+  ssize_t length;
   struct BinaryArray buf = {.array = rand, .length = 8};
 
   struct crypto_cert_meta sign_cert_meta = {
@@ -271,18 +274,20 @@ int generate_sign_cert(struct BinaryArray *scert_cert,
     goto generate_sign_cert_err;
   }
 
-  if ((scert_key->length = (size_t)crypto_generate_eckey(&scert_key->array)) <
-      0) {
+  if ((length = crypto_generate_eckey(&scert_key->array)) < 0) {
     log_error("crypto_generate_eckey fail");
     goto generate_sign_cert_err;
   }
+  scert_key->length = length;
 
-  if ((scert_cert->length = (size_t)crypto_generate_eccert(
-           &sign_cert_meta, scert_key->array, scert_key->length,
-           &scert_cert->array)) < 0) {
+  if ((length = crypto_generate_eccert(&sign_cert_meta, scert_key->array,
+                                       scert_key->length,
+                                       &scert_cert->array)) < 0) {
+    log_error("crypto_generate_eccert fail");
     free_binary_array_content(scert_key);
     goto generate_sign_cert_err;
   }
+  scert_cert->length = length;
 
   free_keyvalue_list(sign_cert_meta.issuer);
   free_keyvalue_list(sign_cert_meta.subject);
diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 60d8e10..1528947 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -191,12 +191,14 @@ int registrar_requestvoucher(const RequestHeader &request_header,
           static_cast<BinaryArray *>(std::malloc(sizeof(BinaryArray))),
           [](BinaryArray *b) { free_binary_array(b); },
       };
-  if ((pledge_voucher_request_cms->length =
-           serialize_base64str2array((const uint8_t *)cms_str, strlen(cms_str),
-                                     &pledge_voucher_request_cms->array)) < 0) {
+  ssize_t cms_length =
+      serialize_base64str2array((const uint8_t *)cms_str, strlen(cms_str),
+                                &pledge_voucher_request_cms->array);
+  if (cms_length < 0) {
     log_errno("serialize_base64str2array fail");
     return 400;
   }
+  pledge_voucher_request_cms->length = cms_length;
 
   if (get_localtime(&created_on) < 0) {
     log_error("get_localtime fail");
-- 
2.43.0


From 686edfd83c7a3344f4659a56bd1bbfc4d39884c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:18 +0000
Subject: [PATCH 04/32] fix: keep vmasa standard input inside its buffer

---
 src/brski/brski.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index e9020e9..8cba0a1 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -229,7 +229,8 @@ int read_stdin(uint8_t buf[]) {
   int cnt = 0;
   while (read(STDIN_FILENO, &buf[cnt], 1) > 0) {
     cnt++;
-    if (cnt > MAX_STDIN_SIZE)
+    /* leave room for the NUL terminator */
+    if (cnt >= MAX_STDIN_SIZE)
       return -1;
   }
 
-- 
2.43.0


From 5aa4e8c9d6963d43b1853ecc40495e15339adc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 05/32] fix: do not free an undecodable pledge nonce twice

---
 src/brski/pledge/pledge_request.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index be84a85..49c93b9 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -52,7 +52,6 @@ int verify_masa_pledge_request(struct pledge_config *pconf,
                                             strlen(pconf->nonce),
                                             &nonce->array)) < 0) {
       log_errno("serialize_base64str2array fail");
-      free_binary_array(nonce);
       goto verify_masa_pledge_request_fail;
     }
     nonce->length = length;
-- 
2.43.0


From 7b03414c1c67948a209089dc74cc287abacd29cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 06/32] fix: keep the MASA pinned certificate per request, not
 in the shared context

---
 src/brski/masa/masa_api.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/brski/masa/masa_api.cpp b/src/brski/masa/masa_api.cpp
index ab63aba..ad5302c 100644
--- a/src/brski/masa/masa_api.cpp
+++ b/src/brski/masa/masa_api.cpp
@@ -59,9 +59,14 @@ int masa_requestvoucher(const RequestHeader &request_header,
                         CRYPTO_CERT peer_certificate,
                         ResponseHeader &response_header, std::string &response,
                         void *user_ctx) {
-  struct MasaContext *context = static_cast<struct MasaContext *>(user_ctx);
+  /* The server handles requests concurrently, the per-request state must not
+   * live in the shared context */
+  struct MasaContext request_context =
+      *static_cast<struct MasaContext *>(user_ctx);
+  struct MasaContext *context = &request_context;
   struct registrar_config *rconf = context->rconf;
   struct masa_config *mconf = context->mconf;
+  context->ldevid_ca_cert = NULL;
 
   struct BinaryArray voucher_request_cms = {};
   struct BinaryArray *masa_sign_cert = NULL;
@@ -138,7 +143,7 @@ int masa_requestvoucher(const RequestHeader &request_header,
   }
 
   masa_pledge_voucher = sign_masa_pledge_voucher(
-      &voucher_request_cms, &expires_on, voucher_req_cb, user_ctx,
+      &voucher_request_cms, &expires_on, voucher_req_cb, context,
       masa_sign_cert, masa_sign_key, registrar_verify_certs,
       registrar_store_certs, pledge_verify_certs, pledge_store_certs,
       additional_masa_certs);
-- 
2.43.0


From 0a1d555622a2c5ab2029fe6e24ce02780bf0b2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 07/32] fix: answer 502 when the MASA refuses the
 voucher-request

---
 src/brski/registrar/registrar_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 1528947..86b45bc 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -293,7 +293,7 @@ int registrar_requestvoucher(const RequestHeader &request_header,
     return 400;
   }
 
-  if (post_voucher_request(voucher_request_cms.get(), mconf, rconf, response) <
+  if (post_voucher_request(voucher_request_cms.get(), mconf, rconf, response) !=
       0) {
     log_error("post_voucher_request fail");
     response.assign(
-- 
2.43.0


From 6444423e2a0c3f42372779a389e45fd1d7ac892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 08/32] fix: return no freed list when a certificate file
 cannot be loaded

---
 src/brski/config.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/brski/config.c b/src/brski/config.c
index d109f39..d931d91 100644
--- a/src/brski/config.c
+++ b/src/brski/config.c
@@ -694,6 +694,7 @@ int load_cert_files(struct BinaryArrayList *cert_paths,
     if ((cert = file_to_x509buf(cert_path_str)) == NULL) {
       log_error("file_to_x509buf fail");
       free_array_list(*out);
+      *out = NULL;
       return -1;
     }
 
@@ -701,6 +702,7 @@ int load_cert_files(struct BinaryArrayList *cert_paths,
       log_error("push_array_list fail");
       free_binary_array(cert);
       free_array_list(*out);
+      *out = NULL;
       return -1;
     }
     free_binary_array(cert);
-- 
2.43.0


From 45caa08dff57c19fd09f38799295e134d817ede0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 09/32] fix: do not drop references the CMS structure owns when
 listing its signers

---
 src/voucher/crypto_ossl.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 7b13840..b269196 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1561,6 +1561,7 @@ ssize_t crypto_sign_cms(const uint8_t *data, const size_t data_length,
 
 static int exatract_cms_certs(CMS_ContentInfo *cms,
                               struct BinaryArrayList **out_certs) {
+  /* The certificates in the stack are still owned by the CMS structure */
   STACK_OF(X509) *signers = CMS_get0_signers(cms);
 
   if (signers == NULL) {
@@ -1570,14 +1571,14 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
   int length = sk_X509_num(signers);
 
   if (!length) {
-    sk_X509_pop_free(signers, X509_free);
+    sk_X509_free(signers);
     return 0;
   }
 
   *out_certs = init_array_list();
   if (*out_certs == NULL) {
     log_error("init_buffer_list fail");
-    sk_X509_pop_free(signers, X509_free);
+    sk_X509_free(signers);
     return -1;
   }
 
@@ -1588,7 +1589,7 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
     if (cert_length < 0) {
       log_error("cert_to_derbuf fail");
       free_array_list(*out_certs);
-      sk_X509_pop_free(signers, X509_free);
+      sk_X509_free(signers);
       *out_certs = NULL;
       return -1;
     }
@@ -1596,14 +1597,14 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
       log_error("push_buffer_list fail");
       sys_free(cert);
       free_array_list(*out_certs);
-      sk_X509_pop_free(signers, X509_free);
+      sk_X509_free(signers);
       *out_certs = NULL;
       return -1;
     }
     sys_free(cert);
   }
 
-  sk_X509_pop_free(signers, X509_free);
+  sk_X509_free(signers);
   return 0;
 }
 
-- 
2.43.0


From 200c443dee2afa7b4033f8c70d7a75e25dadb222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 10/32] fix: accept only the full voucher root name when
 deserializing

---
 src/voucher/voucher.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 50084c9..e73a1b3 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -819,13 +819,18 @@ struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
   }
 
   struct Voucher *voucher = init_voucher();
+  if (voucher == NULL) {
+    log_error("init_voucher fail");
+    return NULL;
+  }
+
   bool found_root = false;
 
   for (int idx = 1; idx < count; idx++) {
-    int length = tokens[idx].end - tokens[idx].start;
+    size_t length = tokens[idx].end - tokens[idx].start;
     /* Find the voucher root key */
-    if (strncmp(VOUCHER_ROOT_NAME, (char *)(json + tokens[idx].start),
-                length) == 0) {
+    if (check_size_str_equal(VOUCHER_ROOT_NAME,
+                             (char *)(json + tokens[idx].start), length)) {
       idx++;
       if (idx < count && tokens[idx].type == JSMN_OBJECT) {
         /* Iterate over all the key/value pairs of the voucher root */
-- 
2.43.0


From 2580d865f23cc7a678bf3c4bd619478ca646181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:01 +0000
Subject: [PATCH 11/32] fix: verify the signatures and the anchor of a
 certificate chain

---
 src/voucher/crypto_ossl.c | 48 +++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index b269196..ffc36cb 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1296,6 +1296,42 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
   return x509_store;
 }
 
+/* X509_build_chain links certificates by name and key identifier only: check
+   the signatures along the chain and, for a non NULL anchors stack, that the
+   chain ends in one of the anchors */
+static int verify_built_chain(const STACK_OF(X509) *chain,
+                              const STACK_OF(X509) *anchors) {
+  int length = (chain != NULL) ? sk_X509_num(chain) : 0;
+  if (length < 1) {
+    log_error("cert chain is empty");
+    return -1;
+  }
+
+  for (int idx = 0; idx < length - 1; idx++) {
+    EVP_PKEY *issuer_key = X509_get0_pubkey(sk_X509_value(chain, idx + 1));
+    if (issuer_key == NULL ||
+        X509_verify(sk_X509_value(chain, idx), issuer_key) != 1) {
+      log_error("X509_verify fail with code=%s",
+                ERR_error_string(ERR_get_error(), NULL));
+      return -1;
+    }
+  }
+
+  if (anchors == NULL) {
+    return 0;
+  }
+
+  for (int idx = 0; idx < sk_X509_num(anchors); idx++) {
+    if (X509_cmp(sk_X509_value(chain, length - 1),
+                 sk_X509_value(anchors, idx)) == 0) {
+      return 0;
+    }
+  }
+
+  log_error("cert chain doesn't end in a given certificate");
+  return -1;
+}
+
 int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
                        const struct BinaryArrayList *certs,
                        const struct BinaryArrayList *store) {
@@ -1335,18 +1371,16 @@ int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
     }
   }
 
+  /* Keep a self-signed root in the chain, so that the last certificate is the
+     anchor of the chain */
   STACK_OF(X509) *out_cert_stack =
-      X509_build_chain(x509, cert_stack, cert_store, 0, NULL, NULL);
+      X509_build_chain(x509, cert_stack, cert_store, 1, NULL, NULL);
   if (out_cert_stack == NULL) {
     log_error("X509_build_chain fail");
   }
 
-  int ret = (out_cert_stack != NULL) ? 0 : -1;
-
-  if (sk_X509_num(out_cert_stack) < 1) {
-    log_error("cert stack is empty");
-    ret = -1;
-  }
+  int ret = verify_built_chain(out_cert_stack,
+                               cert_store == NULL ? cert_stack : NULL);
 
   free_x509_store(cert_store, x509_store_list);
   sk_X509_pop_free(cert_stack, X509_free);
-- 
2.43.0


From b3f88f397015108458bc179e0d797ea19c6bbccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:11 +0000
Subject: [PATCH 12/32] fix: always verify the registrar certificate with the
 pinned domain certificate

---
 src/voucher/request.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index 8358f64..ccb0eb4 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -554,9 +554,15 @@ int verify_masa_pledge_voucher(
 
     free_binary_array_content(&cert_copy);
 
+    /* The domain store only adds to the check: the registrar certificate has to
+     * be verified by the pinned domain certificate in any case */
     if (crypto_verify_cert(registrar_tls_cert->array,
                            registrar_tls_cert->length, intermediate_certs,
-                           domain_store) < 0) {
+                           NULL) < 0 ||
+        (domain_store != NULL &&
+         crypto_verify_cert(registrar_tls_cert->array,
+                            registrar_tls_cert->length, intermediate_certs,
+                            domain_store) < 0)) {
       log_error("crypto_verify_cert fail");
       free_array_list(intermediate_certs);
       goto verify_masa_pledge_voucher_fail;
-- 
2.43.0


From 201b193fc1cfe07a28cb62ab7170296050e3a069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:54 +0000
Subject: [PATCH 13/32] fix: enforce the revocation lists given in a
 certificate store

---
 src/voucher/crypto_ossl.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index ffc36cb..6e37300 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1227,6 +1227,16 @@ void free_x509_store(X509_STORE *store, struct ptr_list *x509_store_list) {
   free_ptr_list(x509_store_list, free_x509_store_cert);
 }
 
+/* Certificates whose issuer has no CRL in the store are not revoked */
+static int verify_store_crl(int ok, X509_STORE_CTX *ctx) {
+  if (!ok && X509_STORE_CTX_get_error(ctx) == X509_V_ERR_UNABLE_TO_GET_CRL) {
+    X509_STORE_CTX_set_error(ctx, X509_V_OK);
+    return 1;
+  }
+
+  return ok;
+}
+
 static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
                                          struct ptr_list **x509_store_list) {
   *x509_store_list = NULL;
@@ -1284,6 +1294,11 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
         return NULL;
       }
 
+      /* A CRL in the store has no effect unless its check is asked for */
+      X509_STORE_set_flags(x509_store,
+                           X509_V_FLAG_CRL_CHECK | X509_V_FLAG_CRL_CHECK_ALL);
+      X509_STORE_set_verify_cb(x509_store, verify_store_crl);
+
       ptr = (void *)x509_crl;
     }
     if (push_ptr_list(*x509_store_list, ptr, el->flags) < 0) {
-- 
2.43.0


From a72e8e6f0178e6f88d1ddad2ecd780e5030d6b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 14/32] fix: escape and unescape the strings of a voucher json

---
 src/voucher/serialize.c | 117 ++++++++++++++++++++++++++++++++++++++--
 src/voucher/serialize.h |  14 ++++-
 src/voucher/voucher.c   |  11 +++-
 3 files changed, 136 insertions(+), 6 deletions(-)

diff --git a/src/voucher/serialize.c b/src/voucher/serialize.c
index ba92a0c..42fbdef 100644
--- a/src/voucher/serialize.c
+++ b/src/voucher/serialize.c
@@ -385,14 +385,125 @@ char *serialize_escapestr(const char *str) {
   }
 
   size_t length = strlen(str);
-  /* ""(2 chars) + \0 (1 char) = 3 chars*/
-  char *serialized = sys_malloc(length + 3);
+  /* at most \uXXXX (6 chars) per char, ""(2 chars) + \0 (1 char) = 3 chars*/
+  char *serialized = sys_malloc(6 * length + 3);
 
   if (serialized == NULL) {
     log_errno("sys_malloc");
     return NULL;
   }
-  sprintf(serialized, "\"%s\"", str);
+
+  char *pos = serialized;
+  *pos++ = '"';
+  for (size_t idx = 0; idx < length; idx++) {
+    if (str[idx] == '"' || str[idx] == '\\') {
+      *pos++ = '\\';
+      *pos++ = str[idx];
+    } else if ((unsigned char)str[idx] < 0x20) {
+      pos += sprintf(pos, "\\u%04x", (unsigned char)str[idx]);
+    } else {
+      *pos++ = str[idx];
+    }
+  }
+  *pos++ = '"';
+  *pos = '\0';
 
   return serialized;
 }
+
+static long unescape_hex4(const char *str, const size_t length) {
+  long value = 0;
+
+  if (length < 4) {
+    return -1;
+  }
+
+  for (size_t idx = 0; idx < 4; idx++) {
+    const char *digits = "0123456789abcdef";
+    const char *digit = strchr(digits, tolower((unsigned char)str[idx]));
+    if (str[idx] == '\0' || digit == NULL) {
+      return -1;
+    }
+    value = 16 * value + (digit - digits);
+  }
+
+  return value;
+}
+
+static size_t unescape_utf8(const unsigned long code, char *out) {
+  if (code < 0x80) {
+    out[0] = (char)code;
+    return 1;
+  } else if (code < 0x800) {
+    out[0] = (char)(0xC0 | (code >> 6));
+    out[1] = (char)(0x80 | (code & 0x3F));
+    return 2;
+  } else if (code < 0x10000) {
+    out[0] = (char)(0xE0 | (code >> 12));
+    out[1] = (char)(0x80 | ((code >> 6) & 0x3F));
+    out[2] = (char)(0x80 | (code & 0x3F));
+    return 3;
+  }
+
+  out[0] = (char)(0xF0 | (code >> 18));
+  out[1] = (char)(0x80 | ((code >> 12) & 0x3F));
+  out[2] = (char)(0x80 | ((code >> 6) & 0x3F));
+  out[3] = (char)(0x80 | (code & 0x3F));
+  return 4;
+}
+
+char *serialize_unescapestr(const char *str, const size_t length) {
+  if (str == NULL) {
+    log_error("str param is NULL");
+    return NULL;
+  }
+
+  char *unescaped = sys_malloc(length + 1);
+  if (unescaped == NULL) {
+    log_errno("sys_malloc");
+    return NULL;
+  }
+
+  size_t count = 0;
+  for (size_t idx = 0; idx < length; idx++) {
+    if (str[idx] != '\\') {
+      unescaped[count++] = str[idx];
+      continue;
+    }
+
+    const char *escapes = "\"\\/bfnrt";
+    const char *escape = NULL;
+    idx++;
+    if (idx < length && str[idx] == 'u') {
+      long code = unescape_hex4(&str[idx + 1], length - idx - 1);
+      idx += 4;
+      if (code >= 0xD800 && code < 0xDC00 && length - idx > 6 &&
+          str[idx + 1] == '\\' && str[idx + 2] == 'u') {
+        long low = unescape_hex4(&str[idx + 3], length - idx - 3);
+        if (low < 0xDC00 || low > 0xDFFF) {
+          code = -1;
+        } else {
+          code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+        }
+        idx += 6;
+      }
+      /* \u0000 can't be part of a string and a lone surrogate is no char */
+      if (code < 1 || (code >= 0xD800 && code <= 0xDFFF)) {
+        log_error("wrong unicode escape sequence");
+        sys_free(unescaped);
+        return NULL;
+      }
+      count += unescape_utf8((unsigned long)code, &unescaped[count]);
+    } else if (idx < length && str[idx] != '\0' &&
+               (escape = strchr(escapes, str[idx])) != NULL) {
+      unescaped[count++] = "\"\\/\b\f\n\r\t"[escape - escapes];
+    } else {
+      log_error("wrong escape sequence");
+      sys_free(unescaped);
+      return NULL;
+    }
+  }
+
+  unescaped[count] = '\0';
+  return unescaped;
+}
diff --git a/src/voucher/serialize.h b/src/voucher/serialize.h
index b73294e..b334558 100644
--- a/src/voucher/serialize.h
+++ b/src/voucher/serialize.h
@@ -100,7 +100,7 @@ int serialize_str2time(const char *str, const struct tm *tm);
 __must_sys_free char *serialize_localtime(void);
 
 /**
- * @brief Adds "" to a string
+ * @brief Adds "" to a string and escapes its chars as in a json string
  *
  * Caller is responsible for freeing the string
  *
@@ -109,6 +109,18 @@ __must_sys_free char *serialize_localtime(void);
  */
 __must_sys_free char *serialize_escapestr(const char *str);
 
+/**
+ * @brief Decodes the escape sequences of a json string (given without "")
+ *
+ * Caller is responsible for freeing the string
+ *
+ * @param[in] str The escaped string
+ * @param[in] length The length of the escaped string
+ * @return char * the unescaped string, NULL on failure
+ */
+__must_sys_free char *serialize_unescapestr(const char *str,
+                                            const size_t length);
+
 /**
  * @brief Encodes a key/value list to a json
  * Example:
diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index e73a1b3..f9f894d 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -843,12 +843,19 @@ struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
             size_t key_length = key_token->end - key_token->start;
             size_t value_length = value_token->end - value_token->start;
             const char *key = (char *)(json + key_token->start);
-            const char *value = (char *)(json + value_token->start);
+            char *value = serialize_unescapestr(
+                (char *)(json + value_token->start), value_length);
+            if (value == NULL) {
+              log_error("serialize_unescapestr fail");
+              goto deserialize_voucher_fail;
+            }
             if (set_keyvalue_voucher(voucher, key, key_length, value,
-                                     value_length) < 0) {
+                                     strlen(value)) < 0) {
               log_trace("set_keyvalue_voucher fail");
+              sys_free(value);
               goto deserialize_voucher_fail;
             }
+            sys_free(value);
           } else {
             log_error("Malformed voucher json");
             goto deserialize_voucher_fail;
-- 
2.43.0


From 7b919c223e7b366492e3a3069cab1157c8db79eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 15/32] fix: take the current time in UTC, as it is encoded,
 and without shared state

---
 src/utils/os.c | 6 ++----
 src/utils/os.h | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/utils/os.c b/src/utils/os.c
index 59e1639..a963f0a 100644
--- a/src/utils/os.c
+++ b/src/utils/os.c
@@ -94,7 +94,6 @@ size_t sys_strnlen_s(const char *const str, const size_t max_len) {
 
 int get_localtime(struct tm *current) {
   time_t ltime;
-  struct tm *newtime;
 
   if (current == NULL) {
     log_error("current is NULL");
@@ -102,11 +101,10 @@ int get_localtime(struct tm *current) {
   }
 
   time(&ltime);
-  if ((newtime = localtime(&ltime)) == NULL) {
-    log_errno("localtime");
+  if (gmtime_r(&ltime, current) == NULL) {
+    log_errno("gmtime_r");
     return -1;
   }
-  sys_memcpy(current, newtime, sizeof(struct tm));
 
   return 0;
 }
diff --git a/src/utils/os.h b/src/utils/os.h
index b470b74..0aad630 100644
--- a/src/utils/os.h
+++ b/src/utils/os.h
@@ -175,7 +175,7 @@ size_t sys_strnlen_s(const char *const str, const size_t max_len);
 
 /**
  * @brief Returns the time since Epoch (00:00:00 UTC, January 1, 1970)
- * using localtime
+ * in UTC, as every encoded time is marked with Z
  *
  * @param current The returned time since Epoch as struct tm
  * @return int 0 on success, -1 on failure
-- 
2.43.0


From 4e1a4a5efe5f4429084bd828ceb23396bb660980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:55 +0000
Subject: [PATCH 16/32] fix: load every value of a key given more than once in
 the configuration

---
 src/brski/config.c | 67 +++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 34 deletions(-)

diff --git a/src/brski/config.c b/src/brski/config.c
index d931d91..8aeedf9 100644
--- a/src/brski/config.c
+++ b/src/brski/config.c
@@ -17,6 +17,7 @@
 #include <fcntl.h>
 #include <minIni.h>
 #include <string.h>
+#include <strings.h>
 #include <unistd.h>
 
 #include "config.h"
@@ -31,51 +32,49 @@
 #define TIME_ISO_STR_SIZE sizeof("9999-12-31T24:59:59Z") + 1
 #define MAX_CONFIG_VALUE_SIZE 2048
 
+struct config_value_search {
+  const char *section;
+  const char *key;
+  struct BinaryArrayList *value_list;
+  int ret;
+};
+
+static int push_config_value(const char *section, const char *key,
+                             const char *value, void *user_data) {
+  struct config_value_search *search = (struct config_value_search *)user_data;
+
+  if (strcasecmp(section, search->section) == 0 &&
+      strcmp(key, search->key) == 0 && strlen(value)) {
+    if (push_array_list(search->value_list, (const uint8_t *)value,
+                        strlen(value) + 1, 0) < 0) {
+      log_error("push_array_list fail");
+      search->ret = -1;
+      return 0;
+    }
+  }
+
+  return 1;
+}
+
 int load_config_value_list(const char *section, const char *key,
                            const char *filename,
                            struct BinaryArrayList **value_list) {
-  *value_list = NULL;
-  int idx = 0;
-
-  char *store = NULL;
-  if ((store = sys_zalloc(MAX_CONFIG_VALUE_SIZE)) == NULL) {
-    log_errno("sys_zalloc");
-    return -1;
-  }
-
   if ((*value_list = init_array_list()) == NULL) {
     log_error("init_array_list fail");
-    sys_free(store);
     return -1;
   }
 
-  while (ini_getkey(section, idx++, store, MAX_CONFIG_VALUE_SIZE, filename) >
-         0) {
-    char *value = NULL;
-    if ((value = sys_zalloc(MAX_CONFIG_VALUE_SIZE)) == NULL) {
-      log_errno("sys_zalloc");
-      sys_free(store);
-      free_array_list(*value_list);
-      return -1;
-    }
-
-    ini_gets(section, store, "", value, INI_BUFFERSIZE, filename);
+  /* ini_gets only finds the first of the values given with the same key */
+  struct config_value_search search = {
+      .section = section, .key = key, .value_list = *value_list, .ret = 0};
+  ini_browse(push_config_value, &search, filename);
 
-    if (strcmp(store, key) == 0 && strlen(value)) {
-      if (push_array_list(*value_list, (uint8_t *const)value, strlen(value) + 1,
-                          0) < 0) {
-        sys_free(value);
-        sys_free(store);
-        free_array_list(*value_list);
-        return -1;
-      }
-    }
-
-    sys_free(value);
+  if (search.ret < 0) {
+    free_array_list(*value_list);
+    *value_list = NULL;
   }
 
-  sys_free(store);
-  return 0;
+  return search.ret;
 }
 
 void free_masa_config_content(struct masa_config *mconf) {
-- 
2.43.0


From c0dfdab6eeb956126deec488977e59468016ec8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 17/32] fix: keep client chosen names inside their audit log
 line

---
 src/brski/registrar/registrar_api.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 86b45bc..a57cfba 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -71,15 +71,22 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
 
   char *lserial = crypto_getcert_serial(&lmeta);
 
+  /* The names come from the client: escaped they can't end the log line */
+  char *iname = serialize_escapestr((iserial != NULL) ? iserial : "NULL");
+  char *lname = serialize_escapestr((lserial != NULL) ? lserial : "NULL");
+
   FILE *f = fopen(log_path, "a");
-  if (f != NULL) {
-    fprintf(f, "%lu 0x%" PRIx64 " \"%s\" 0x%" PRIx64 " \"%s\"\n", time(NULL),
-            imeta.serial_number, (iserial != NULL) ? iserial : "NULL",
-            lmeta.serial_number, (lserial != NULL) ? lserial : "NULL");
-    fclose(f);
+  if (f != NULL && iname != NULL && lname != NULL) {
+    fprintf(f, "%lu 0x%" PRIx64 " %s 0x%" PRIx64 " %s\n", time(NULL),
+            imeta.serial_number, iname, lmeta.serial_number, lname);
   } else {
     log_errno("fopen fail");
   }
+  if (f != NULL) {
+    fclose(f);
+  }
+  sys_free(iname);
+  sys_free(lname);
 
   free_keyvalue_list(imeta.issuer);
   free_keyvalue_list(imeta.subject);
-- 
2.43.0


From 5edf3804fc172fd360f99d3aeb14c34f1c82fe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 18/32] fix: refuse certificate names with an embedded NUL

---
 src/voucher/crypto_ossl.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 6e37300..8bddf06 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -655,12 +655,20 @@ int get_x509_entry(X509_NAME *name, int nid, char **out) {
 
   ASN1_STRING *d = X509_NAME_ENTRY_get_data(e);
   unsigned char *str = NULL;
-  if (ASN1_STRING_to_UTF8(&str, d) < 0) {
+  int length = ASN1_STRING_to_UTF8(&str, d);
+  if (length < 0) {
     log_error("ASN1_STRING_to_UTF8 code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     return -1;
   }
 
+  /* As a string the value would end at the NUL and stand for another name */
+  if (strlen((char *)str) != (size_t)length) {
+    log_error("NUL char in a certificate name");
+    OPENSSL_free(str);
+    return -1;
+  }
+
   *out = (char *)str;
 
   return 0;
-- 
2.43.0


From 8e640b4c496d26c7c541857f43cc8c9cc88b5152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 19/32] fix: refuse an object or array as the value of a
 voucher attribute

---
 src/voucher/voucher.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index f9f894d..23426db 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -840,6 +840,11 @@ struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
           if (key_idx < count && value_idx < count) {
             jsmntok_t *key_token = &tokens[key_idx];
             jsmntok_t *value_token = &tokens[value_idx];
+            if (value_token->type != JSMN_STRING &&
+                value_token->type != JSMN_PRIMITIVE) {
+              log_error("Malformed voucher json value");
+              goto deserialize_voucher_fail;
+            }
             size_t key_length = key_token->end - key_token->start;
             size_t value_length = value_token->end - value_token->start;
             const char *key = (char *)(json + key_token->start);
-- 
2.43.0


From d63e221a4ed4ade5a91ec6b3474074789da7883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 20/32] fix: refuse an enrolment that the audit log cannot
 record

---
 src/brski/registrar/registrar_api.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index a57cfba..7135716 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -28,7 +28,7 @@ extern "C" {
 #include "../config.h"
 }
 
-void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
+int save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
   struct crypto_cert_meta imeta = {};
   imeta.issuer = init_keyvalue_list();
   imeta.subject = init_keyvalue_list();
@@ -37,14 +37,14 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
 
   if (imeta.issuer == NULL || imeta.subject == NULL) {
     log_error("error allocation metadata");
-    return;
+    return -1;
   }
 
   if (crypto_getcert_meta(icert, &imeta) < 0) {
     log_error("crypto_getcert_meta fail");
     free_keyvalue_list(imeta.issuer);
     free_keyvalue_list(imeta.subject);
-    return;
+    return -1;
   }
 
   char *iserial = crypto_getcert_serial(&imeta);
@@ -57,7 +57,7 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
     log_error("error allocation metadata");
     free_keyvalue_list(imeta.issuer);
     free_keyvalue_list(imeta.subject);
-    return;
+    return -1;
   }
 
   if (crypto_getcert_meta(lcert, &lmeta) < 0) {
@@ -66,7 +66,7 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
     free_keyvalue_list(imeta.subject);
     free_keyvalue_list(lmeta.issuer);
     free_keyvalue_list(lmeta.subject);
-    return;
+    return -1;
   }
 
   char *lserial = crypto_getcert_serial(&lmeta);
@@ -92,6 +92,7 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
   free_keyvalue_list(imeta.subject);
   free_keyvalue_list(lmeta.issuer);
   free_keyvalue_list(lmeta.subject);
+  return 0;
 }
 
 int post_voucher_request(struct BinaryArray *voucher_request_cms,
@@ -418,15 +419,21 @@ int registrar_est_simpleenroll(const RequestHeader &request_header,
     goto registrar_signcert_err;
   }
 
-  response.assign((char *)cert_str);
-
   scert = crypto_cert2context(cert_to_sign.array, cert_to_sign.length);
 
   if (scert != NULL) {
-    save_to_log(peer_certificate, scert, context->log_path);
+    int logged = save_to_log(peer_certificate, scert, context->log_path);
     crypto_free_certcontext(scert);
+    /* A client must not get a certificate the log can't account for */
+    if (logged < 0 && peer_certificate != NULL) {
+      log_error("save_to_log fail");
+      sys_free(cert_str);
+      goto registrar_signcert_err;
+    }
   }
 
+  response.assign((char *)cert_str);
+
   sys_free(cert_str);
   free_binary_array_content(&cert_to_sign);
   free_binary_array(tls_ca_cert);
-- 
2.43.0


From e42389b14711ca8d8f4c7b9b9d0f1f62baff914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 21/32] fix: log certificate serial numbers that exceed 64 bits

---
 src/brski/registrar/registrar_api.cpp | 12 +++++--
 src/voucher/crypto.h                  |  9 ++++++
 src/voucher/crypto_ossl.c             | 46 +++++++++++++++++++++++++++
 3 files changed, 64 insertions(+), 3 deletions(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 7135716..c5d469c 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -75,10 +75,14 @@ int save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
   char *iname = serialize_escapestr((iserial != NULL) ? iserial : "NULL");
   char *lname = serialize_escapestr((lserial != NULL) ? lserial : "NULL");
 
+  char *inumber = crypto_getcert_serialhex(icert);
+  char *lnumber = crypto_getcert_serialhex(lcert);
+
   FILE *f = fopen(log_path, "a");
-  if (f != NULL && iname != NULL && lname != NULL) {
-    fprintf(f, "%lu 0x%" PRIx64 " %s 0x%" PRIx64 " %s\n", time(NULL),
-            imeta.serial_number, iname, lmeta.serial_number, lname);
+  if (f != NULL && iname != NULL && lname != NULL && inumber != NULL &&
+      lnumber != NULL) {
+    fprintf(f, "%lu %s %s %s %s\n", time(NULL), inumber, iname, lnumber,
+            lname);
   } else {
     log_errno("fopen fail");
   }
@@ -87,6 +91,8 @@ int save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
   }
   sys_free(iname);
   sys_free(lname);
+  sys_free(inumber);
+  sys_free(lnumber);
 
   free_keyvalue_list(imeta.issuer);
   free_keyvalue_list(imeta.subject);
diff --git a/src/voucher/crypto.h b/src/voucher/crypto.h
index a61e010..8837e87 100644
--- a/src/voucher/crypto.h
+++ b/src/voucher/crypto.h
@@ -128,6 +128,15 @@ int crypto_getcert_meta(CRYPTO_CERT cert, struct crypto_cert_meta *meta);
 __must_free_binary_array struct BinaryArray *
 crypto_getcert_issuer(CRYPTO_CERT cert);
 
+/**
+ * @brief Returns the serial number of a certificate, whatever its size, as
+ * lower case hexadecimal number with a 0x prefix
+ *
+ * @param[in] cert The input certificate structure
+ * @return char* the serial number (free with sys_free), NULL on failure
+ */
+char *crypto_getcert_serialhex(CRYPTO_CERT cert);
+
 /**
  * @brief Returns the certificater serial number from the subject
  *
diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 8bddf06..a4bd592 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -9,8 +9,11 @@
  * utilities.
  */
 
+#include <ctype.h>
 #include <stddef.h>
 #include <stdint.h>
+#include <stdio.h>
+#include <string.h>
 #include <openssl/cms.h>
 #include <openssl/conf.h>
 #include <openssl/crypto.h>
@@ -1771,6 +1774,49 @@ int crypto_getrand(struct BinaryArray *buf) {
   return 0;
 }
 
+char *crypto_getcert_serialhex(CRYPTO_CERT cert) {
+  if (cert == NULL) {
+    log_error("cert param is NULL");
+    return NULL;
+  }
+
+  ASN1_INTEGER *serial = X509_get_serialNumber((X509 *)cert);
+  BIGNUM *bn = (serial == NULL) ? NULL : ASN1_INTEGER_to_BN(serial, NULL);
+  if (bn == NULL) {
+    log_error("certificate serial number fail with code=%s",
+              ERR_error_string(ERR_get_error(), NULL));
+    return NULL;
+  }
+
+  char *hex = BN_bn2hex(bn);
+  const char *sign = BN_is_negative(bn) ? "-" : "";
+  BN_free(bn);
+  if (hex == NULL) {
+    log_error("BN_bn2hex fail with code=%s",
+              ERR_error_string(ERR_get_error(), NULL));
+    return NULL;
+  }
+
+  /* BN_bn2hex writes whole bytes in upper case */
+  char *digits = hex;
+  while (*digits == '-' || (*digits == '0' && digits[1] != '\0')) {
+    digits++;
+  }
+  for (char *c = digits; *c != '\0'; c++) {
+    *c = (char)tolower((unsigned char)*c);
+  }
+
+  size_t size = strlen(digits) + 4;
+  char *out = sys_malloc(size);
+  if (out == NULL) {
+    log_errno("sys_malloc");
+  } else {
+    snprintf(out, size, "%s0x%s", sign, digits);
+  }
+  OPENSSL_free(hex);
+  return out;
+}
+
 char *crypto_getcert_serial(struct crypto_cert_meta *meta) {
   struct keyvalue_list *el = NULL, *next = NULL;
   dl_list_for_each_safe(el, next, &(meta->subject)->list, struct keyvalue_list,
-- 
2.43.0


From a9bc275d540417807f6571f39669ddfeb546b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 22/32] fix: report an enrolment reply without a certificate as
 failure

---
 src/brski/pledge/pledge_request.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index 49c93b9..1599090 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -310,6 +310,7 @@ int post_sign_cert(struct pledge_config *pconf, struct registrar_config *rconf,
   std::string path = PATH_EST_SIMPLEENROLL;
   std::string content_type = "application/voucher-cms+json";
   std::string registrar_ca_cert;
+  CRYPTO_CERT issued_cert;
   ssize_t length;
 
   if (generate_sign_cert(out_cert, out_key) < 0) {
@@ -367,6 +368,14 @@ int post_sign_cert(struct pledge_config *pconf, struct registrar_config *rconf,
   }
   out_cert->length = length;
 
+  /* A reply that holds no certificate is no enrolment */
+  issued_cert = crypto_cert2context(out_cert->array, out_cert->length);
+  if (issued_cert == NULL) {
+    log_error("crypto_cert2context fail");
+    goto post_sign_cert_err;
+  }
+  crypto_free_certcontext(issued_cert);
+
   free_binary_array_content(&pinned_domain_cert);
   return 0;
 
-- 
2.43.0


From 195c24efe74f83edf220e4b55abc642ea3b8360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 23/32] fix: write audit log lines one at a time

Requests are served by many threads; a line longer than the stdio buffer is
written in pieces, between which the line of another enrolment could come.
---
 src/brski/registrar/registrar_api.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index c5d469c..b10d4e8 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -9,6 +9,7 @@
  */
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <new>
 #include <string>
 
@@ -28,6 +29,9 @@ extern "C" {
 #include "../config.h"
 }
 
+/* Requests are served concurrently, and a long line is written in pieces */
+static std::mutex audit_log_mutex;
+
 int save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
   struct crypto_cert_meta imeta = {};
   imeta.issuer = init_keyvalue_list();
@@ -78,6 +82,7 @@ int save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
   char *inumber = crypto_getcert_serialhex(icert);
   char *lnumber = crypto_getcert_serialhex(lcert);
 
+  std::unique_lock<std::mutex> audit_log_lock(audit_log_mutex);
   FILE *f = fopen(log_path, "a");
   if (f != NULL && iname != NULL && lname != NULL && inumber != NULL &&
       lnumber != NULL) {
@@ -89,6 +94,7 @@ int save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
   if (f != NULL) {
     fclose(f);
   }
+  audit_log_lock.unlock();
   sys_free(iname);
   sys_free(lname);
   sys_free(inumber);
-- 
2.43.0


From c14564973062c322750e46d07c0ef10c907c6878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 24/32] fix: do not crash when the certificate or key of the
 HTTPS server can not be loaded

Without a client CA the constructor set the verification of a TLS context
that had been freed.
---
 src/brski/http/httplib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brski/http/httplib.h b/src/brski/http/httplib.h
index a4e7b8f..1a4bc87 100644
--- a/src/brski/http/httplib.h
+++ b/src/brski/http/httplib.h
@@ -8913,7 +8913,7 @@ inline SSLServer::SSLServer(const char *cert_path, const char *private_key_path,
           ctx_, SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT, nullptr);
     }
 
-    if (client_ca_cert_file_path == nullptr &&
+    if (ctx_ != nullptr && client_ca_cert_file_path == nullptr &&
         client_ca_cert_dir_path == nullptr) {
       SSL_CTX_set_verify(ctx_,
                          SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT,
-- 
2.43.0


From b37442bdd5485a7f46ecca2d809ce280b8563552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 25/32] fix: send error replies with one content type

set_header only adds to the headers, so that errors of routes that set a
content type had two.
---
 src/brski/http/httplib_wrapper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index ee56be0..4465fd9 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -167,6 +167,8 @@ void set_error_handler(httplib::SSLServer *server) {
           res.body = HTTP_ERROR_REPLY; // set default error response
         }
         // according to BRSKI spec, all errors must be plain text
+        // (set_header only adds a header to those set by the route)
+        res.headers.erase("Content-Type");
         res.set_header("Content-Type", "text/plain");
       });
 }
-- 
2.43.0


From 775fc3549659a982874d79e3ccf3bcc101b1d971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 26/32] fix: trust only the given CA in https_post_request_ca

The server certificate verification of httplib also loads the system wide
CAs, so that the pledge would enroll with any server certified by one of
them instead of only with the one of the pinned domain.
---
 src/brski/http/httplib_wrapper.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index 4465fd9..be45c1a 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -273,9 +273,13 @@ int httplib_post_request_ca(const std::string &client_key_path,
 
   httplib::SSLClient cli(host, port, client_cert_path, client_key_path);
 
-  cli.enable_server_certificate_verification(true);
+  // The verification of httplib would also trust the CAs of the system, the
+  // server has to be certified by the given CA. Let the handshake verify.
+  cli.enable_server_certificate_verification(false);
   cli.enable_host_verification(false);
   cli.load_ca_cert_store(ca.c_str(), ca.length());
+  if (cli.ssl_context() != nullptr)
+    SSL_CTX_set_verify(cli.ssl_context(), SSL_VERIFY_PEER, nullptr);
 
   log_info("Post request to %s:%d%s", host.c_str(), port, path.c_str());
   if (httplib::Result res = cli.Post(path, body, content_type)) {
-- 
2.43.0


From 26743d5cf054417a210b1f2298bcedf7ac737724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 27/32] fix: write output files under their whole names

---
 src/brski/brski.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 8cba0a1..dfd7410 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -239,8 +239,6 @@ int read_stdin(uint8_t buf[]) {
 
 int output_domain_cert(struct BinaryArray *pinned_domain_cert,
                        std::string &out_filename) {
-  char outf[255];
-
   if (out_filename.empty()) {
     char *cert_str = NULL;
     if (serialize_array2base64str(pinned_domain_cert->array,
@@ -252,8 +250,8 @@ int output_domain_cert(struct BinaryArray *pinned_domain_cert,
     print_cert(cert_str, 0);
     sys_free(cert_str);
   } else {
-    snprintf(outf, 255, "%s.crt", out_filename.c_str());
-    if (certbuf_to_file(pinned_domain_cert, outf) < 0) {
+    const std::string outf = out_filename + ".crt";
+    if (certbuf_to_file(pinned_domain_cert, outf.c_str()) < 0) {
       log_error("certbuf_to_file fail");
       return -1;
     }
@@ -268,7 +266,6 @@ int main(int argc, char *argv[]) {
   std::string config_filename, in_filename, out_filename;
   std::string address;
   CommandId command_id;
-  char outf[255];
 
   process_options(argc, argv, verbose, config_filename, in_filename,
                   out_filename, &port, address, command_id);
@@ -331,10 +328,10 @@ int main(int argc, char *argv[]) {
         sys_free(base64);
         free_binary_array(tls_cert);
       } else {
-        snprintf(outf, 255, "%s.smime", out_filename.c_str());
+        const std::string outf = out_filename + ".smime";
 
-        if (voucher_pledge_request_to_smimefile(&config.pconf, tls_cert, outf) <
-            0) {
+        if (voucher_pledge_request_to_smimefile(&config.pconf, tls_cert,
+                                                outf.c_str()) < 0) {
           log_error("voucher_pledge_request_to_smimefile fail");
           return EXIT_FAILURE;
         }
@@ -390,13 +387,13 @@ int main(int argc, char *argv[]) {
         print_cert(pki_str, 0);
         sys_free(pki_str);
       } else {
-        snprintf(outf, 255, "%s.crt", out_filename.c_str());
-        if (certbuf_to_file(&out_cert, outf) < 0) {
+        const std::string cert_outf = out_filename + ".crt";
+        const std::string key_outf = out_filename + ".key";
+        if (certbuf_to_file(&out_cert, cert_outf.c_str()) < 0) {
           log_error("certbuf_to_file fail");
           return EXIT_FAILURE;
         }
-        snprintf(outf, 255, "%s.key", out_filename.c_str());
-        if (keybuf_to_file(&out_key, outf) < 0) {
+        if (keybuf_to_file(&out_key, key_outf.c_str()) < 0) {
           log_error("certbuf_to_file fail");
           return EXIT_FAILURE;
         }
-- 
2.43.0


From ac3582ec06224cad878ea4f1e1b723993b0f3274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:48 +0000
Subject: [PATCH 28/32] fix: match the dots of a route literally

---
 src/brski/http/httplib_wrapper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index be45c1a..5ab37f3 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -59,6 +59,8 @@ int httplib_register_routes(httplib::SSLServer *server,
 
   for (auto route : routes) {
     log_debug("Registering route=%s", route.path.c_str());
+    // httplib takes the path as a regular expression
+    route.path = std::regex_replace(route.path, std::regex("\\."), "\\.");
     switch (route.method) {
       case HTTP_METHOD_GET:
         server->Get(route.path, [=](const httplib::Request &req,
-- 
2.43.0


From b88bce15d13613ff9d64684c8ac76e723369e57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 29/32] fix: terminate the name of the program shown in the
 help

---
 src/brski/brski.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index dfd7410..eab1449 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -86,6 +86,7 @@ static void show_version(void) {
 static void show_help(const char *name) {
   const std::string string_name(name);
   std::vector<char> basename_buffer(string_name.begin(), string_name.end());
+  basename_buffer.push_back('\0');
 
   show_version();
   std::fprintf(stdout, "Usage:\n");
-- 
2.43.0


From 67d0fc2bcec9ea805f01cc65e532f01b3b87a35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:59 +0000
Subject: [PATCH 30/32] fix: report a connection closed by the peer instead of
 ending by SIGPIPE

---
 src/brski/brski.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index eab1449..eb793e1 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -1,5 +1,6 @@
 #include <stdexcept>
 #include <array>
+#include <csignal>
 #include <cstdarg>
 #include <cstdio>
 #include <cstdlib>
@@ -273,6 +274,9 @@ int main(int argc, char *argv[]) {
 
   log_set_lock(log_lock_fun);
 
+  /* A peer that closes its connection is reported as error of the write */
+  std::signal(SIGPIPE, SIG_IGN);
+
   /* Set the log level */
   if (!verbose)
     log_set_quiet(true);
-- 
2.43.0


From 881c8e03241465505f9a26b0b06282eae4cfd86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:33 +0000
Subject: [PATCH 31/32] fix: free the signer certificates of a message that
 holds no voucher

---
 src/voucher/voucher.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 23426db..20a39d2 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -1052,6 +1052,10 @@ struct Voucher *verify_cms_voucher(const struct BinaryArray *cms,
   if (voucher == NULL) {
     log_error("deserialize_voucher fail");
     sys_free(data);
+    if (out_certs != NULL) {
+      free_array_list(*out_certs);
+      *out_certs = NULL;
+    }
     return NULL;
   }
 
-- 
2.43.0


From 1a85321cd484910982ff18485d33239e9ffc1713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:42 +0000
Subject: [PATCH 32/32] fix: free the former value of a voucher attribute that
 is set again

---
 src/voucher/voucher.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 20a39d2..22a6ad9 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -182,10 +182,13 @@ static int set_attr_nstr_voucher(struct Voucher *voucher,
   }
 
   if (length < MAX_SERIAL_NUMBER_SIZE) {
-    if ((voucher->serial_number = sys_strndup(value, length)) == NULL) {
+    char *serial_number = sys_strndup(value, length);
+    if (serial_number == NULL) {
       log_errno("sys_strdup");
       return -1;
     }
+    sys_free(voucher->serial_number);
+    voucher->serial_number = serial_number;
   } else {
     log_error("Attribute value exceeds max size");
     return -1;
@@ -215,6 +218,20 @@ int set_attr_str_voucher(struct Voucher *voucher,
                                sys_strnlen_s(value, MAX_SERIAL_NUMBER_SIZE));
 }
 
+static int replace_binary_array(struct BinaryArray *const dst,
+                                const struct BinaryArray *src) {
+  struct BinaryArray copy = {0};
+
+  if (copy_binary_array(&copy, src) < 0) {
+    return -1;
+  }
+
+  free_binary_array_content(dst);
+  *dst = copy;
+
+  return 0;
+}
+
 int set_attr_array_voucher(struct Voucher *voucher,
                            const enum VoucherAttributes attr,
                            const struct BinaryArray *value) {
@@ -230,28 +247,28 @@ int set_attr_array_voucher(struct Voucher *voucher,
 
   switch (attr) {
     case ATTR_IDEVID_ISSUER:
-      if (copy_binary_array(&voucher->idevid_issuer, value) < 0) {
+      if (replace_binary_array(&voucher->idevid_issuer, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_PINNED_DOMAIN_CERT:
-      if (copy_binary_array(&voucher->pinned_domain_cert, value) < 0) {
+      if (replace_binary_array(&voucher->pinned_domain_cert, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_NONCE:
-      if (copy_binary_array(&voucher->nonce, value) < 0) {
+      if (replace_binary_array(&voucher->nonce, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_PRIOR_SIGNED_VOUCHER_REQUEST:
-      if (copy_binary_array(&voucher->prior_signed_voucher_request, value) <
+      if (replace_binary_array(&voucher->prior_signed_voucher_request, value) <
           0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_PROXIMITY_REGISTRAR_CERT:
-      if (copy_binary_array(&voucher->proximity_registrar_cert, value) < 0) {
+      if (replace_binary_array(&voucher->proximity_registrar_cert, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
-- 
2.43.0

