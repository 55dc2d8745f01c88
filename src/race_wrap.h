/* Included before the library when it is built for thread exploration: C library
   calls report the memory they touch, mutexes yield to the explorer. */
#ifndef RACE_WRAP_H
#define RACE_WRAP_H
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
void *race_memcpy(void *, const void *, size_t);
void *race_memmove(void *, const void *, size_t);
void *race_memset(void *, int, size_t);
int race_memcmp(const void *, const void *, size_t);
void *race_memchr(const void *, int, size_t);
size_t race_strlen(const char *);
size_t race_strnlen(const char *, size_t);
int race_strcmp(const char *, const char *);
int race_strncmp(const char *, const char *, size_t);
char *race_strcpy(char *, const char *);
char *race_strncpy(char *, const char *, size_t);
char *race_strcat(char *, const char *);
char *race_strchr(const char *, int);
char *race_strstr(const char *, const char *);
char *race_strtok(char *, const char *);
int race_atoi(const char *);
long race_atol(const char *);
long long race_atoll(const char *);
double race_atof(const char *);
double race_strtod(const char *, char **);
long race_strtol(const char *, char **, int);
long long race_strtoll(const char *, char **, int);
unsigned long race_strtoul(const char *, char **, int);
int race_snprintf(char *, size_t, const char *, ...);
int race_sprintf(char *, const char *, ...);
#ifdef __cplusplus
}
#endif
#define memcpy(...) race_memcpy(__VA_ARGS__)
#define memmove(...) race_memmove(__VA_ARGS__)
#define memset(...) race_memset(__VA_ARGS__)
#define memcmp(...) race_memcmp(__VA_ARGS__)
#define memchr(...) race_memchr(__VA_ARGS__)
#define strlen(...) race_strlen(__VA_ARGS__)
#define strnlen(...) race_strnlen(__VA_ARGS__)
#define strcmp(...) race_strcmp(__VA_ARGS__)
#define strncmp(...) race_strncmp(__VA_ARGS__)
#define strcpy(...) race_strcpy(__VA_ARGS__)
#define strncpy(...) race_strncpy(__VA_ARGS__)
#define strcat(...) race_strcat(__VA_ARGS__)
#define strchr(...) race_strchr(__VA_ARGS__)
#define strstr(...) race_strstr(__VA_ARGS__)
#define strtok(...) race_strtok(__VA_ARGS__)
#define atoi(...) race_atoi(__VA_ARGS__)
#define atol(...) race_atol(__VA_ARGS__)
#define atoll(...) race_atoll(__VA_ARGS__)
#define atof(...) race_atof(__VA_ARGS__)
#define strtod(...) race_strtod(__VA_ARGS__)
#define strtol(...) race_strtol(__VA_ARGS__)
#define strtoll(...) race_strtoll(__VA_ARGS__)
#define strtoul(...) race_strtoul(__VA_ARGS__)
#define snprintf(...) race_snprintf(__VA_ARGS__)
#define sprintf(...) race_sprintf(__VA_ARGS__)
#endif
