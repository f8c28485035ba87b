// Stand-in for the absent emscripten SDK header.
#pragma once
#define EMSCRIPTEN_KEEPALIVE __attribute__((used))
