/* Stands in for the formatter in the sources of the formatting check.  The encoder does not apply the default argument
 * promotions to variable arguments, so they are written out. */
#include <stdio.h>
int vh_sprintf(char *s, const char *format, ...);
int vh_snprintf(char *s, size_t n, const char *format, ...);
#define VH_PROMOTED(v) _Generic((v), float: (double)(v), default: +(v))
#define sprintf(s, format, ...) vh_sprintf(s, format, VH_PROMOTED(__VA_ARGS__))
#define snprintf(s, n, format, ...) vh_snprintf(s, n, format, VH_PROMOTED(__VA_ARGS__))
