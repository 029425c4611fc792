/* documented constants, by value: the definitions do not take them from the headers they judge */
#undef MAXIT
#define MAXIT (100)
#undef FEASTOL
#define FEASTOL (1E-8)
#undef ABSTOL
#define ABSTOL (1E-8)
#undef RELTOL
#define RELTOL (1E-8)
#undef FTOL_INACC
#define FTOL_INACC (1E-4)
#undef ATOL_INACC
#define ATOL_INACC (5E-5)
#undef RTOL_INACC
#define RTOL_INACC (5E-5)
#undef GAMMA
#define GAMMA (0.99)
#undef DELTASTAT
#define DELTASTAT (7E-8)
#undef DELTA
#define DELTA (2E-7)
#undef EPS
#define EPS (1E-13)
#undef VERBOSE
#define VERBOSE (1)
#undef NITREF
#define NITREF (9)
#undef IRERRFACT
#define IRERRFACT (6)
#undef LINSYSACC
#define LINSYSACC (1E-14)
#undef SIGMAMIN
#define SIGMAMIN (1E-4)
#undef SIGMAMAX
#define SIGMAMAX (1.0)
#undef STEPMIN
#define STEPMIN (1E-6)
#undef STEPMAX
#define STEPMAX (0.999)
#undef SAFEGUARD
#define SAFEGUARD (500)
#undef MAX_BK
#define MAX_BK (90)
#undef BK_SCALE
#define BK_SCALE (0.8)
#undef MIN_DISTANCE
#define MIN_DISTANCE (0.1)
#undef CENTRALITY
#define CENTRALITY (1)
#undef ECOS_OPTIMAL
#define ECOS_OPTIMAL (0)
#undef ECOS_PINF
#define ECOS_PINF (1)
#undef ECOS_DINF
#define ECOS_DINF (2)
#undef ECOS_INACC_OFFSET
#define ECOS_INACC_OFFSET (10)
#undef ECOS_MAXIT
#define ECOS_MAXIT (-1)
#undef ECOS_NUMERICS
#define ECOS_NUMERICS (-2)
#undef ECOS_OUTCONE
#define ECOS_OUTCONE (-3)
#undef ECOS_SIGINT
#define ECOS_SIGINT (-4)
#undef ECOS_FATAL
#define ECOS_FATAL (-7)
#undef MI_ABS_EPS
#define MI_ABS_EPS (1E-6)
#undef MI_REL_EPS
#define MI_REL_EPS (1E-3)
#undef MI_MAXITER
#define MI_MAXITER (1000)
#undef MI_OPTIMAL_SOLN
#define MI_OPTIMAL_SOLN (0)
#undef MI_INFEASIBLE
#define MI_INFEASIBLE (1)
#undef MI_UNBOUNDED
#define MI_UNBOUNDED (2)
#undef MI_MAXITER_FEASIBLE_SOLN
#define MI_MAXITER_FEASIBLE_SOLN (10)
#undef MI_MAXITER_NO_SOLN
#define MI_MAXITER_NO_SOLN (11)
#undef MI_MAXITER_UNBOUNDED
#define MI_MAXITER_UNBOUNDED (12)
#undef MAX_FLOAT_INT
#define MAX_FLOAT_INT (8388608)
#undef MI_INT_TOL
#define MI_INT_TOL (1E-4)
#undef MAX
#define MAX(a, b) ((a) < (b) ? (b) : (a))
#undef SAFEDIV_POS
#define SAFEDIV_POS(a, b) ((b) < 1E-13 ? (a) / 1E-13 : (a) / (b))
#undef ECOS_INFINITY
#define ECOS_INFINITY (__builtin_inf())
#undef ECOS_NAN
#define ECOS_NAN (ECOS_INFINITY - ECOS_INFINITY)
