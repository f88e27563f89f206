/* used when /repo has not been configured (config.h is a build product there) */
#define COMPILE_DL_TEDS 1
#define HAVE_TEDS 1
