#pragma once
#include <string>
#include <openssl/x509.h>
#include <openssl/evp.h>
X509 *fx_x509(const std::string &der);
std::string x509_der(X509 *x);
EVP_PKEY *fx_pkey(const std::string &der);
bool fx_tls_trusts(const std::string &pem, X509 *leaf);
bool fx_tls_client_ok(const std::string &pem, X509 *leaf);
