/* The C side of the interface tests: an interpreter of scripts (see spec/Machine.tla, "the C interface"), which    */
/* opens, advances and closes queries, unifies, builds and reports terms; and one function per foreign type and mode. */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <gprolog.h>

#define MAXV 64
static PlTerm seen[MAXV];
static int nseen;

static void str(const char *s)
{
  putchar('"');
  for (; *s; s++)
    {
      unsigned char c = (unsigned char) *s;
      if (c == '"' || c == '\\')
	printf("\\%c", c);
      else if (c < 32)
	printf("\\u%04x", c);
      else
	putchar(c);
    }
  putchar('"');
}

static void dbl(double d)
{
  char b[64];
  int p;
  for (p = 15; p <= 17; p++)
    {
      sprintf(b, "%.*g", p, d);
      if (strtod(b, NULL) == d)
	break;
    }
  if (!strpbrk(b, ".e"))
    strcat(b, ".0");
  printf("[\"f\",\"%s\"]", b);
}

static void term(PlTerm t)
{
  int i, f, n;
  PlTerm *a;

  if (Pl_Builtin_Var(t))
    {
      for (i = 0; i < nseen && !Pl_Builtin_Term_Eq(seen[i], t); i++)
	;
      if (i == nseen && nseen < MAXV)
	seen[nseen++] = t;
      printf("[\"v\",%d]", i + 1);
    }
  else if (Pl_Builtin_Integer(t))
    {
      PlLong v = Pl_Rd_Integer(t);
      if (v < 1073741824 && v > -1073741824)
	printf("[\"i\",%ld]", (long) v);
      else
	printf("[\"I\",\"%ld\"]", (long) v);
    }
  else if (Pl_Builtin_Float(t))
    dbl(Pl_Rd_Float(t));
  else if (Pl_Builtin_Atom(t))
    {
      printf("[\"a\",");
      str(Pl_Atom_Name(Pl_Rd_Atom(t)));
      putchar(']');
    }
  else
    {
      a = Pl_Rd_Compound(t, &f, &n);
      printf("[\"s\",");
      str(Pl_Atom_Name(f));
      printf(",[");
      for (i = 0; i < n; i++)
	{
	  if (i)
	    putchar(',');
	  term(a[i]);
	}
      printf("]]");
    }
}

static void event(const char *kind, PlTerm t)
{
  nseen = 0;
  printf("{\"k\":\"%s\",\"v\":", kind);
  term(t);
  printf("}\n");
  fflush(stdout);
}

static void result(int r)
{
  printf("{\"k\":\"ev\",\"v\":[\"s\",\"r\",[[\"i\",%d]]]}\n", r);
  fflush(stdout);
}

static void ball(PlTerm t)
{
  int f, n;
  PlTerm *a;
  if (Pl_Builtin_Compound(t))
    {
      a = Pl_Rd_Compound(t, &f, &n);
      if (n == 2 && strcmp(Pl_Atom_Name(f), "error") == 0)
	{
	  event("err", a[0]);
	  return;
	}
    }
  event("ball", t);
}

/* a copy of a term made with the Pl_Mk_ functions */
static PlTerm make(PlTerm t)
{
  int i, f, n;
  PlTerm *a, b[16];

  if (Pl_Builtin_Var(t))
    return t;
  if (Pl_Builtin_Integer(t))
    return Pl_Mk_Integer(Pl_Rd_Integer(t));
  if (Pl_Builtin_Float(t))
    return Pl_Mk_Float(Pl_Rd_Float(t));
  if (Pl_Builtin_Atom(t))
    return Pl_Mk_Atom(Pl_Create_Allocate_Atom(Pl_Atom_Name(Pl_Rd_Atom(t))));
  a = Pl_Rd_Compound(t, &f, &n);
  for (i = 0; i < n; i++)
    b[i] = make(a[i]);
  if (n == 2 && strcmp(Pl_Atom_Name(f), ".") == 0)
    return Pl_Mk_List(b);
  return Pl_Mk_Compound(Pl_Find_Atom(Pl_Atom_Name(f)), n, b);
}

#define MAXQ 16

static int mode(PlTerm t)
{
  switch (Pl_Atom_Name(Pl_Rd_Atom(t))[0])
    {
    case 'r':
      return PL_RECOVER;
    case 'c':
      return PL_CUT;
    }
  return PL_KEEP_FOR_PROLOG;
}

static void close_cut(int n)
{
  while (n-- > 0)
    Pl_Query_End(PL_CUT);
}

static PlBool script(PlTerm ops)
{
  PlBool rec[MAXQ], go[MAXQ];
  int fm[MAXQ];
  int nq = 0, skip = 0, res, f, n, i, nops;
  PlTerm *l, *a, x;

  l = Pl_Rd_Callable(ops, &f, &nops);
  for (i = 0; i < nops; i++)
    {
      a = Pl_Rd_Callable(l[i], &f, &n);
      char c = Pl_Atom_Name(f)[0];
      if (skip)
	{
	  if (c == 'q')
	    skip++;
	  else if (c == 'e')
	    skip--;
	  continue;
	}
      switch (c)
	{
	case 'l':
	  event("ev", a[0]);
	  continue;

	case 'u':
	  if (!Pl_Unif(a[0], a[1]))
	    {
	      close_cut(nq);
	      return PL_FALSE;
	    }
	  continue;

	case 'm':
	  if (!Pl_Unif(a[0], make(a[1])))
	    {
	      close_cut(nq);
	      return PL_FALSE;
	    }
	  continue;

	case 'q':
	  {
	    int gf, gn;
	    PlTerm *ga = Pl_Rd_Callable(a[0], &gf, &gn);
	    rec[nq] = mode(a[1]) == PL_RECOVER;
	    go[nq] = Pl_Atom_Name(Pl_Rd_Atom(a[2]))[0] == 'g';
	    fm[nq] = go[nq] ? PL_CUT : mode(a[2]);
	    nq++;
	    Pl_Query_Begin(rec[nq - 1]);
	    res = Pl_Query_Call(gf, gn, ga);
	    break;
	  }

	case 'n':
	  if (nq == 0)
	    continue;
	  res = Pl_Query_Next_Solution();
	  break;

	case 'e':
	  if (nq == 0)
	    continue;
	  nq--;
	  res = mode(a[0]);
	  Pl_Query_End(res == PL_RECOVER && !rec[nq] ? PL_CUT : res);
	  continue;

	case 'x':
	  close_cut(nq);
	  Pl_Throw(a[0]);
	  return PL_FALSE;

	case 'g':
	  {
	    int gf, gn;
	    PlTerm *ga;
	    close_cut(nq);
	    ga = Pl_Rd_Callable(a[0], &gf, &gn);
	    Pl_Exec_Continuation(gf, gn, ga);
	    return PL_FALSE;
	  }

	case 'f':
	  close_cut(nq);
	  return PL_FALSE;

	default:
	  return PL_FALSE;
	}

      result(res);
      if (res == PL_SUCCESS)
	continue;
      x = 0;
      if (res == PL_EXCEPTION)
	ball(x = Pl_Get_Exception());
      nq--;
      if (rec[nq] && fm[nq] == PL_RECOVER)
	{
	  Pl_Query_End(PL_RECOVER);
	  skip = 1;
	  continue;
	}
      Pl_Query_End(fm[nq] == PL_RECOVER ? PL_CUT : fm[nq]);
      if (go[nq])
	{
	  skip = 1;
	  continue;
	}
      close_cut(nq);
      if (res == PL_EXCEPTION)
	Pl_Throw(x);
      return PL_FALSE;
    }

  if (nq > 0)
    {
      close_cut(nq - 1);
      Pl_Query_End(PL_KEEP_FOR_PROLOG);
    }
  return PL_TRUE;
}

PlBool cif_scr(PlTerm ops)
{
  return script(ops);
}

/* non-deterministic: one script per call, the last one without a choice point left */
PlBool cif_scrnd(PlTerm scripts)
{
  int k = Pl_Get_Choice_Counter(), i, n;
  PlLong *buf = Pl_Get_Choice_Buffer(PlLong *);
  PlTerm *l, s;

  *buf = k == 0 ? 100 : *buf + k;
  printf("{\"k\":\"ev\",\"v\":[\"s\",\"nd\",[[\"i\",%d],[\"i\",%ld]]]}\n", k, (long) *buf);
  fflush(stdout);
  l = Pl_Rd_Callable(scripts, &i, &n);
  if (k >= n - 1)
    Pl_No_More_Choice();
  if (n == 0)
    return PL_FALSE;
  s = l[k];
  return script(s);
}
