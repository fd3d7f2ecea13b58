"""what is known about functions of the C library"""
from facts import fkey

MATH = """acos asin atan atan2 cos sin tan sincos acosh asinh atanh cosh sinh tanh exp exp2 expm1 frexp
ilogb ldexp log log10 log1p log2 logb modf scalbn scalbln cbrt fabs hypot pow sqrt erf erfc lgamma
tgamma ceil floor nearbyint rint lrint llrint round lround llround trunc fmod remainder remquo
copysign nan nextafter nexttoward fdim fmax fmin fma isinf isnan finite __isinf __isnan __finite
__signbit __fpclassify __isinff __isnanf __signbitf __isinfl __isnanl __signbitl"""
PURE = """abs labs llabs div ldiv lldiv atof atoi atol atoll strtod strtof strtold strtol strtoll
strtoul strtoull memchr memcmp strchr strchrnul strcmp strcspn strlen strncmp strnlen strpbrk
strrchr strspn strstr memrchr memmem strcasecmp strncasecmp strcasestr isalnum isalpha isascii
isblank iscntrl isdigit isgraph islower isprint ispunct isspace isupper isxdigit tolower toupper
__ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc ffs ffsl ffsll __errno_location strerror
__assert_fail bsearch"""
MEM = """memcpy memmove memset mempcpy strcpy strncpy strcat strncat stpcpy strdup strndup strtok_r
strsep qsort qsort_r malloc calloc realloc reallocarray aligned_alloc posix_memalign free abort exit
_Exit _exit atexit bcopy bzero"""
TEXT = """sprintf snprintf vsprintf vsnprintf sscanf vsscanf asprintf vasprintf __isoc99_sscanf
__isoc23_strtol __isoc23_strtoul __isoc23_strtoll __isoc23_strtoull"""
STDIO = """fclose fflush feof ferror fileno clearerr fprintf vfprintf printf vprintf fputs fputc puts
putc putchar fwrite fread fgetc getc fgets getline ungetc fseek ftell rewind perror setvbuf setbuf
fseeko ftello"""
HARMLESS = set((MATH + " " + PURE + " " + MEM + " " + TEXT + " " + STDIO).split())
HARMLESS |= {f + s for f in MATH.split() for s in ("f", "l")}
OPEN = {"fopen": 1, "fopen64": 1, "freopen": 1, "fdopen": 1}


def external(prog, n):
    """name of the library function that DeclRefExpr n denotes, or None"""
    if n.k != "DeclRefExpr" or n.decl.raw["k"] != "func":
        return None
    if fkey(n.decl, prog.repo) in prog.functions or n.decl.name in prog.functions:
        return None
    return n.decl.name


def harmless(name):
    return name in HARMLESS or name.startswith("__builtin_") or name.startswith("__sync_")
