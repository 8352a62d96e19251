/* stand-in for the Emscripten header: only marks exported functions */
#define EMSCRIPTEN_KEEPALIVE __attribute__((used))
