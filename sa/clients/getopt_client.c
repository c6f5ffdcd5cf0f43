/*
 * Users of getopt.h, as its documentation describes them, for the analysis of
 * option parsing. The ev_* functions are known to the analysis only.
 */
#include <stddef.h>

#include "getopt.h"

void ev_opt(int, const char *);
void ev_missing(const char *);
void ev_unknown(const char *);

int sa_getopt_client(int, char **);
int sa_getopt_client2(int, char **);
int sa_getopt_twice(int, char **, int, char **);
int sa_getopt_stopped(int, char **, int, char **);

/* With a place for missing arguments. */
int
sa_getopt_client(int argc, char ** argv)
{
	const char * ch;

	while ((ch = GETOPT(argc, argv)) != NULL) {
		GETOPT_SWITCH(ch) {
		GETOPT_OPT("-a"):
			ev_opt(1, optarg);
			break;
		GETOPT_OPTARG("-b"):
			ev_opt(2, optarg);
			break;
		GETOPT_OPT("--foobar"):
			ev_opt(3, optarg);
			break;
		GETOPT_OPT("--foo"):
			ev_opt(4, optarg);
			break;
		GETOPT_OPTARG("--bar"):
			ev_opt(5, optarg);
			break;
		GETOPT_OPTARG("--barfoo"):
			ev_opt(6, optarg);
			break;
		GETOPT_MISSING_ARG:
			ev_missing(ch);
			break;
		GETOPT_DEFAULT:
			ev_unknown(ch);
			break;
		}
	}

	return (optind);
}

/* Without one. */
int
sa_getopt_client2(int argc, char ** argv)
{
	const char * ch;

	while ((ch = GETOPT(argc, argv)) != NULL) {
		GETOPT_SWITCH(ch) {
		GETOPT_OPTARG("--barfoo"):
			ev_opt(6, optarg);
			break;
		GETOPT_OPTARG("--bar"):
			ev_opt(5, optarg);
			break;
		GETOPT_OPT("--foo"):
			ev_opt(4, optarg);
			break;
		GETOPT_OPTARG("-b"):
			ev_opt(2, optarg);
			break;
		GETOPT_OPT("-a"):
			ev_opt(1, optarg);
			break;
		GETOPT_DEFAULT:
			ev_unknown(ch);
			break;
		}
	}

	return (optind);
}

/* One command line after the other. */
int
sa_getopt_twice(int argc, char ** argv, int argc2, char ** argv2)
{

	(void)sa_getopt_client(argc, argv);
	ev_unknown(NULL);
	optreset = 1;
	return (sa_getopt_client2(argc2, argv2));
}

/* One command line, given up after its first option, and another one. */
int
sa_getopt_stopped(int argc, char ** argv, int argc2, char ** argv2)
{
	const char * ch;

	if ((ch = GETOPT(argc, argv)) != NULL) {
		GETOPT_SWITCH(ch) {
		GETOPT_OPT("-c"):
			ev_opt(3, optarg);
			break;
		GETOPT_DEFAULT:
			break;
		}
		(void)GETOPT(argc, argv);
	}
	optreset = 1;
	return (sa_getopt_client2(argc2, argv2));
}
