/* Native meaning of the symbolic primitives: inputs come from a recorded
 * byte string, a failed assertion ends the process with status 10. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>

static const uint8_t *in_buf;
static size_t in_len, in_pos;

void vh_native_input(const uint8_t *p, size_t n) {
    in_buf = p;
    in_len = n;
    in_pos = 0;
}
static uint8_t next(void) {
    if (in_pos >= in_len) {
        in_pos++;
        return 0;
    }
    return in_buf[in_pos++];
}
void __sym_bytes(uint8_t *p, size_t n) {
    for (size_t i = 0; i < n; i++) p[i] = next();
}
void __sym_assume(bool c) {
    if (!c) {
        printf("ASSUME\n");
        fflush(stdout);
        _Exit(12);
    }
}
void __sym_assert(bool c, uint32_t id) {
    if (!c) {
        printf("ASSERT %u\n", id);
        fflush(stdout);
        _Exit(10);
    }
}
uint32_t __sym_choice(uint32_t n) {
    uint32_t v = next();
    if (v >= n) {
        printf("ASSUME\n");
        fflush(stdout);
        _Exit(12);
    }
    return v;
}
void __sym_obs(uint64_t v) { printf("OBS %llu\n", (unsigned long long)v); }
void __sym_reach(uint32_t id) { (void)id; }
uint64_t __sym_concretize(uint64_t v) { return v; }

/* Texts are shown only when asked for (the replay report). */
void __sym_note(const uint8_t *p, size_t n) {
    if (!getenv("VH_NOTE")) return;
    printf("TEXT \"");
    for (size_t i = 0; i < n; i++) {
        uint8_t c = p[i];
        if (c == '\n') printf("\\n");
        else if (c == '\r') printf("\\r");
        else if (c == '\t') printf("\\t");
        else if (c == '"' || c == '\\') printf("\\%c", c);
        else if (c < 32 || c == 127) printf("\\x%02x", c);
        else putchar(c);
    }
    printf("\"\n");
    fflush(stdout);
}

/* Fixed hash keys (std's RandomState), the ones the engine uses. */
long getrandom(void *p, size_t n, unsigned flags) {
    (void)flags;
    memset(p, 0x5a, n);
    return (long)n;
}
