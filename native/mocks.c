/* stand-ins for the component schemes: each forwards to a callback set by the replay driver */
#include <stddef.h>
#include <stdint.h>
typedef unsigned char u8; typedef unsigned long long u64;
int (*cb_ed_sign)(u8*,u64*,const u8*,u64,const u8*);
int (*cb_ed_open)(u8*,u64*,const u8*,u64,const u8*);
int (*cb_ed_kp)(u8*,u8*,const u8*);
int (*cb_dil_kp)(u8*,u8*,const u8*);
int (*cb_spx_kp)(u8*,u8*,const u8*);
int (*cb_dil_sign)(u8*,size_t*,const u8*,size_t,const u8*);
int (*cb_dil_verify)(const u8*,size_t,const u8*,size_t,const u8*);
int (*cb_spx_sign)(u8*,size_t*,const u8*,size_t,const u8*);
int (*cb_spx_verify)(const u8*,size_t,const u8*,size_t,const u8*);
int (*cb_rand)(void*,size_t);
int crypto_sign_ed25519_tweet(u8*a,u64*b,const u8*c,u64 d,const u8*e){return cb_ed_sign(a,b,c,d,e);}
int crypto_sign_ed25519_tweet_open(u8*a,u64*b,const u8*c,u64 d,const u8*e){return cb_ed_open(a,b,c,d,e);}
int crypto_sign_ed25519_keypair_seed(u8*a,u8*b,u8*c){return cb_ed_kp(a,b,c);}
int PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_seed(u8*a,u8*b,u8*c){return cb_dil_kp(a,b,c);}
int PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_seed_keypair(u8*a,u8*b,const u8*c){return cb_spx_kp(a,b,c);}
int PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature(u8*a,size_t*b,const u8*c,size_t d,const u8*e){return cb_dil_sign(a,b,c,d,e);}
int PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(const u8*a,size_t b,const u8*c,size_t d,const u8*e){return cb_dil_verify(a,b,c,d,e);}
int PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_signature(u8*a,size_t*b,const u8*c,size_t d,const u8*e){return cb_spx_sign(a,b,c,d,e);}
int PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_verify(const u8*a,size_t b,const u8*c,size_t d,const u8*e){return cb_spx_verify(a,b,c,d,e);}
int randombytes(void*a,size_t b){return cb_rand(a,b);}
