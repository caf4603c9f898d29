#ifndef ATHSA_FAKE
#define ATHSA_FAKE
#define NULL ((void*)0)
#define EOF (-1)
#define FILENAME_MAX 4096
#define BUFSIZ 8192
#define SEEK_SET 0
#define SEEK_CUR 1
#define SEEK_END 2
#define EXIT_FAILURE 1
#define EXIT_SUCCESS 0
#define SIGINT 2
#define SIGTERM 15
#define SIG_IGN ((void (*)(int))1)
#define SIG_DFL ((void (*)(int))0)
#define SIG_ERR ((void (*)(int))-1)
#define CLOCKS_PER_SEC 1000000
#define DBL_MAX 1.7976931348623157e308
#define FLT_MAX 3.40282347e38
#define DBL_EPSILON 2.2204460492503131e-16
#define FLT_EPSILON 1.1920929e-7
#define DBL_MIN 2.2250738585072014e-308
#define INT_MAX 2147483647
#define INT_MIN (-2147483647-1)
#define M_PI 3.14159265358979323846
#define RAND_MAX 2147483647
#define _IONBF 2
#define _IOLBF 1
#define _IOFBF 0
#define RTLD_LAZY 1
#define RTLD_NOW 2
#define va_start(a,b) __va_start(a)
#define va_end(a) __va_end(a)
#define va_arg(a,t) (*(t*)__va_arg(a))
#define va_copy(a,b) __va_copy(a,b)
#define assert(x) __assert_use(x)
#define isnan(x) __isnan(x)
#define isinf(x) __isinf(x)
#define errno __errno_var
typedef int __bi;
typedef __bi FILE, va_list, MPI_Comm, MPI_Request, MPI_Datatype, MPI_Group, MPI_Op, MPI_Info, mode_t, pid_t, clock_t, fpos_t;
typedef long MPI_Aint;
typedef unsigned long size_t;
typedef long ssize_t, time_t, off_t;
typedef struct {int MPI_SOURCE; int MPI_TAG; int MPI_ERROR; int _cnt;} MPI_Status;
struct timeval {long tv_sec; long tv_usec;};
struct timezone {int tz_minuteswest; int tz_dsttime;};
struct tms {long tms_utime; long tms_stime; long tms_cutime; long tms_cstime;};
struct stat {int st_mode; long st_size;};
struct tm {int tm_sec; int tm_min; int tm_hour; int tm_mday; int tm_mon; int tm_year; int tm_wday; int tm_yday; int tm_isdst;};
typedef struct {int quot; int rem;} div_t;
div_t div(int,int);
typedef double fftw_complex[2];
typedef struct fftw_plan_s *fftw_plan;
extern int __errno_var;
extern FILE *stdin, *stdout, *stderr;
double sqrt(double), fabs(double), pow(double,double), exp(double), log(double), log10(double);
double sin(double), cos(double), tan(double), asin(double), acos(double), atan(double), atan2(double,double);
double sinh(double), cosh(double), tanh(double), floor(double), ceil(double), fmod(double,double), cbrt(double), hypot(double,double), rint(double), erf(double), acosh(double), fmax(double,double), fmin(double,double), copysign(double,double), ldexp(double,int), frexp(double,int*), modf(double,double*);
float sqrtf(float), fabsf(float);
int abs(int); long labs(long);
double atof(const char*); int atoi(const char*); long atol(const char*);
double strtod(const char*, char**); long strtol(const char*, char**, int);
void *malloc(size_t), *calloc(size_t,size_t), *realloc(void*,size_t); void free(void*);
void exit(int); void abort(void); int system(const char*); char *getenv(const char*); int rand(void); void srand(unsigned int);
void qsort(void*,size_t,size_t,int (*)(const void*,const void*));
int atexit(void (*)(void)); int remove(const char*); int rename(const char*, const char*);
int printf(const char*,...), fprintf(FILE*,const char*,...), sprintf(char*,const char*,...), snprintf(char*,size_t,const char*,...), sscanf(const char*,const char*,...), fscanf(FILE*,const char*,...);
int vprintf(const char*,va_list), vfprintf(FILE*,const char*,va_list), vsprintf(char*,const char*,va_list), vsnprintf(char*,size_t,const char*,va_list);
FILE *fopen(const char*,const char*); int fclose(FILE*); int fflush(FILE*); char *fgets(char*,int,FILE*); int fputs(const char*,FILE*); int fputc(int,FILE*); int fgetc(FILE*); int getc(FILE*); int putc(int,FILE*); int putchar(int); int puts(const char*); int ungetc(int,FILE*);
size_t fread(void*,size_t,size_t,FILE*), fwrite(const void*,size_t,size_t,FILE*); int fseek(FILE*,long,int); long ftell(FILE*); int feof(FILE*); int ferror(FILE*); void rewind(FILE*); void perror(const char*); int setvbuf(FILE*,char*,int,size_t);
int strcmp(const char*,const char*), strncmp(const char*,const char*,size_t), strcasecmp(const char*,const char*); size_t strlen(const char*);
char *strcpy(char*,const char*), *strncpy(char*,const char*,size_t), *strcat(char*,const char*), *strncat(char*,const char*,size_t), *strchr(const char*,int), *strrchr(const char*,int), *strstr(const char*,const char*), *strtok(char*,const char*), *strdup(const char*), *strerror(int), *strpbrk(const char*,const char*); size_t strcspn(const char*,const char*), strspn(const char*,const char*);
void *memcpy(void*,const void*,size_t), *memset(void*,int,size_t), *memmove(void*,const void*,size_t); int memcmp(const void*,const void*,size_t);
int isspace(int), isdigit(int), isalpha(int), isalnum(int), toupper(int), tolower(int), isupper(int), islower(int), isprint(int), ispunct(int);
time_t time(time_t*); clock_t clock(void); double difftime(time_t,time_t); char *ctime(const time_t*); struct tm *localtime(const time_t*); size_t strftime(char*,size_t,const char*,const struct tm*);
int gettimeofday(struct timeval*, void*); long times(struct tms*); long sysconf(int);
int mkdir(const char*,mode_t); int chdir(const char*); int stat(const char*,struct stat*); char *getcwd(char*,size_t); int unlink(const char*); unsigned int sleep(unsigned int); pid_t getpid(void);
void *dlopen(const char*,int), *dlsym(void*,const char*); char *dlerror(void); int dlclose(void*);
void (*signal(int, void (*)(int)))(int);
int raise(int);
int getopt(int,char*const*,const char*); extern char *optarg; extern int optind;
void __va_start(va_list), __va_end(va_list), __va_copy(va_list,va_list), __assert_use(int); void *__va_arg(va_list);
int __isnan(double), __isinf(double);
#ifdef MPI_PARALLEL
#endif
double MPI_Wtime(void);
#endif
