/* The C side: plain C99 code that sees nothing but the public C header. Each
 * function is reached through a table so that the monitor can call the binding
 * exactly as a C program (or a foreign function interface) would. */
#include <klein.h>
#include <stddef.h>
#include <string.h>

#define U(NAME, F, A, O)                              \
    static void NAME(void const* a, void const* b, void* o) \
    {                                                 \
        O r;                                          \
        (void)b;                                      \
        r = F((A const*)a);                           \
        memcpy(o, &r, sizeof r);                      \
    }
#define B(NAME, F, A, C, O)                           \
    static void NAME(void const* a, void const* b, void* o) \
    {                                                 \
        O r = F((A const*)a, (C const*)b);            \
        memcpy(o, &r, sizeof r);                      \
    }
B(c0, kln_reflect_point, kln_plane, kln_point, kln_point)
B(c1, kln_reflect_line, kln_plane, kln_line, kln_line)
B(c2, kln_reflect_plane, kln_plane, kln_plane, kln_plane)
B(c3, kln_rotate_point, kln_rotor, kln_point, kln_point)
B(c4, kln_rotate_line, kln_rotor, kln_line, kln_line)
B(c5, kln_rotate_plane, kln_rotor, kln_plane, kln_plane)
B(c6, kln_translate_point, kln_translator, kln_point, kln_point)
B(c7, kln_translate_line, kln_translator, kln_line, kln_line)
B(c8, kln_translate_plane, kln_translator, kln_plane, kln_plane)
B(c9, kln_motor_point, kln_motor, kln_point, kln_point)
B(c10, kln_motor_line, kln_motor, kln_line, kln_line)
B(c11, kln_motor_plane, kln_motor, kln_plane, kln_plane)
B(c12, kln_compose_rotors, kln_rotor, kln_rotor, kln_rotor)
B(c13, kln_compose_translators, kln_translator, kln_translator, kln_translator)
B(c14, kln_compose_rotor_translator, kln_rotor, kln_translator, kln_motor)
B(c15, kln_compose_translator_rotor, kln_translator, kln_rotor, kln_motor)
B(c16, kln_compose_motors, kln_motor, kln_motor, kln_motor)
U(c17, motor_log, kln_motor, kln_line)
U(c18, line_exp, kln_line, kln_motor)

void (*const vf_c_calls[])(void const*, void const*, void*) = {
    c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18};

void vf_c_plane(float const* c, void* o) { kln_plane_init((kln_plane*)o, c[0], c[1], c[2], c[3]); }
void vf_c_point(float const* c, void* o) { kln_point_init((kln_point*)o, c[0], c[1], c[2]); }
void vf_c_line(float const* c, void* o) { kln_line_init((kln_line*)o, c[0], c[1], c[2], c[3], c[4], c[5]); }
size_t vf_c_size(int i)
{
    static const size_t s[] = {sizeof(kln_plane), sizeof(kln_point), sizeof(kln_line), sizeof(kln_direction),
                               sizeof(kln_rotor), sizeof(kln_translator), sizeof(kln_motor)};
    return s[i];
}

#define AL(T) offsetof(struct { char c; T t; }, t)
size_t vf_c_align(int i)
{
    static const size_t s[] = {AL(kln_plane), AL(kln_point), AL(kln_line), AL(kln_direction),
                               AL(kln_rotor), AL(kln_translator), AL(kln_motor)};
    return s[i];
}
