#pragma once
#include <openssl/ec.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include "loc.hpp"

struct KeyPair { std::string priv, pub; };

static inline KeyPair make_keypair(EVP_PKEY* k) {
	KeyPair r;
	if (!k) { fprintf(stderr, "could not make a key\n"); _exit(99); }
	for (int i = 0; i < 2; i++) {
		BIO* b = BIO_new(BIO_s_mem());
		if (i) PEM_write_bio_PUBKEY(b, k); else PEM_write_bio_PrivateKey(b, k, NULL, NULL, 0, NULL, NULL);
		char* p; long n = BIO_get_mem_data(b, &p);
		(i ? r.pub : r.priv).assign(p, n);
		BIO_free(b);
	}
	EVP_PKEY_free(k);
	return r;
}

static inline FILE* text_file(const std::string& s) {
	FILE* f = mem_file();
	fwrite(s.data(), 1, s.size(), f);
	fflush(f);
	rewind(f);
	return f;
}
