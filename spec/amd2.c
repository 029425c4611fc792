/* Reference definition: the approximate minimum degree ordering of AMD 2.4 (T. A. Davis, P. R. Amestoy, I. S. Duff; see external/amd/README.txt
   for its licence), without its assertions and debug prints.  Never executed. */
#include "amd_internal.h"
static Int cleared (Int wflg, Int wbig, Int W[ ], Int n) {
    Int x;
    if (wflg < 2 || wflg >= wbig) {
 for (x = 0; x < n; x++) {
     if (W[x] != 0) W[x] = 1;
 }
 wflg = 2;
    }
    return (wflg);
}
void spec_amd_l2
(
    Int n,
    Int Pe[ ],
    Int Iw[ ],
    Int Len[ ],
    Int iwlen,
    Int pfree,
    Int Nv[ ],
    Int Next[ ],
    Int Last[ ],
    Int Head[ ],
    Int Elen[ ],
    Int Degree[ ],
    Int W[ ],
    double Control[ ],
    double Info[ ]
) {
    Int deg, degme, dext, lemax, e, elenme, eln, i, ilast, inext, j,
 jlast, jnext, k, knt1, knt2, knt3, lenj, ln, me, mindeg, nel, nleft,
 nvi, nvj, nvpiv, slenme, wbig, we, wflg, wnvi, ok, ndense, ncmpa,
 dense, aggressive;
    unsigned Int hash;
    double f, r, ndiv, s, nms_lu, nms_ldl, dmax, alpha, lnz, lnzme;
    Int p, p1, p2, p3, p4, pdst, pend, pj, pme, pme1, pme2, pn, psrc;
    lnz = 0;
    ndiv = 0;
    nms_lu = 0;
    nms_ldl = 0;
    dmax = 1;
    me = EMPTY;
    mindeg = 0;
    ncmpa = 0;
    nel = 0;
    lemax = 0;
    if (Control != (double *) NULL) {
 alpha = Control[AMD_DENSE];
 aggressive = (Control[AMD_AGGRESSIVE] != 0);
    }
    else {
 alpha = AMD_DEFAULT_DENSE;
 aggressive = AMD_DEFAULT_AGGRESSIVE;
    }
    if (alpha < 0) {
 dense = n-2;
    }
    else {
 dense = (Int)(alpha * sqrt ((double) n));
    }
    dense = MAX (16, dense);
    dense = MIN (n, dense);
    for (i = 0; i < n; i++) {
 Last[i] = EMPTY;
 Head[i] = EMPTY;
 Next[i] = EMPTY;
 Nv[i] = 1;
 W[i] = 1;
 Elen[i] = 0;
 Degree[i] = Len[i];
    }
    wbig = Int_MAX - n;
    wflg = cleared (0, wbig, W, n);
    ndense = 0;
    for (i = 0; i < n; i++) {
 deg = Degree[i];
 if (deg == 0) {
     Elen[i] = FLIP (1);
     nel++;
     Pe[i] = EMPTY;
     W[i] = 0;
 }
 else if (deg > dense) {
     ndense++;
     Nv[i] = 0;
     Elen[i] = EMPTY;
     nel++;
     Pe[i] = EMPTY;
 }
 else {
     inext = Head[deg];
     if (inext != EMPTY) Last[inext] = i;
     Next[i] = inext;
     Head[deg] = i;
 }
    }
    while (nel < n) {
 for (deg = mindeg; deg < n; deg++) {
     me = Head[deg];
     if (me != EMPTY) break;
 }
 mindeg = deg;
 inext = Next[me];
 if (inext != EMPTY) Last[inext] = EMPTY;
 Head[deg] = inext;
 elenme = Elen[me];
 nvpiv = Nv[me];
 nel += nvpiv;
 Nv[me] = -nvpiv;
 degme = 0;
 if (elenme == 0) {
     pme1 = Pe[me];
     pme2 = pme1 - 1;
     for (p = pme1; p <= pme1 + Len[me] - 1; p++) {
  i = Iw[p];
  nvi = Nv[i];
  if (nvi > 0) {
      degme += nvi;
      Nv[i] = -nvi;
      Iw[++pme2] = i;
      ilast = Last[i];
      inext = Next[i];
      if (inext != EMPTY) Last[inext] = ilast;
      if (ilast != EMPTY) {
   Next[ilast] = inext;
      }
      else {
   Head[Degree[i]] = inext;
      }
  }
     }
 }
 else {
     p = Pe[me];
     pme1 = pfree;
     slenme = Len[me] - elenme;
     for (knt1 = 1; knt1 <= elenme + 1; knt1++) {
  if (knt1 > elenme) {
      e = me;
      pj = p;
      ln = slenme;
  }
  else {
      e = Iw[p++];
      pj = Pe[e];
      ln = Len[e];
  }
  for (knt2 = 1; knt2 <= ln; knt2++) {
      i = Iw[pj++];
      nvi = Nv[i];
      if (nvi > 0) {
   if (pfree >= iwlen) {
       Pe[me] = p;
       Len[me] -= knt1;
       if (Len[me] == 0) Pe[me] = EMPTY;
       Pe[e] = pj;
       Len[e] = ln - knt2;
       if (Len[e] == 0) Pe[e] = EMPTY;
       ncmpa++;
       for (j = 0; j < n; j++) {
    pn = Pe[j];
    if (pn >= 0) {
        Pe[j] = Iw[pn];
        Iw[pn] = FLIP (j);
    }
       }
       psrc = 0;
       pdst = 0;
       pend = pme1 - 1;
       while (psrc <= pend) {
    j = FLIP (Iw[psrc++]);
    if (j >= 0) {
        Iw[pdst] = Pe[j];
        Pe[j] = pdst++;
        lenj = Len[j];
        for (knt3 = 0; knt3 <= lenj - 2; knt3++) {
     Iw[pdst++] = Iw[psrc++];
        }
    }
       }
       p1 = pdst;
       for (psrc = pme1; psrc <= pfree-1; psrc++) {
    Iw[pdst++] = Iw[psrc];
       }
       pme1 = p1;
       pfree = pdst;
       pj = Pe[e];
       p = Pe[me];
   }
   degme += nvi;
   Nv[i] = -nvi;
   Iw[pfree++] = i;
   ilast = Last[i];
   inext = Next[i];
   if (inext != EMPTY) Last[inext] = ilast;
   if (ilast != EMPTY) {
       Next[ilast] = inext;
   }
   else {
       Head[Degree[i]] = inext;
   }
      }
  }
  if (e != me) {
      Pe[e] = FLIP (me);
      W[e] = 0;
  }
     }
     pme2 = pfree - 1;
 }
 Degree[me] = degme;
 Pe[me] = pme1;
 Len[me] = pme2 - pme1 + 1;
 Elen[me] = FLIP (nvpiv + degme);
 wflg = cleared (wflg, wbig, W, n);
 for (pme = pme1; pme <= pme2; pme++) {
     i = Iw[pme];
     eln = Elen[i];
     if (eln > 0) {
  nvi = -Nv[i];
  wnvi = wflg - nvi;
  for (p = Pe[i]; p <= Pe[i] + eln - 1; p++) {
      e = Iw[p];
      we = W[e];
      if (we >= wflg) {
   we -= nvi;
      }
      else if (we != 0) {
   we = Degree[e] + wnvi;
      }
      W[e] = we;
  }
     }
 }
 for (pme = pme1; pme <= pme2; pme++) {
     i = Iw[pme];
     p1 = Pe[i];
     p2 = p1 + Elen[i] - 1;
     pn = p1;
     hash = 0;
     deg = 0;
     if (aggressive) {
  for (p = p1; p <= p2; p++) {
      e = Iw[p];
      we = W[e];
      if (we != 0) {
   dext = we - wflg;
   if (dext > 0) {
       deg += dext;
       Iw[pn++] = e;
       hash += e;
   }
   else {
       Pe[e] = FLIP (me);
       W[e] = 0;
   }
      }
  }
     }
     else {
  for (p = p1; p <= p2; p++) {
      e = Iw[p];
      we = W[e];
      if (we != 0) {
   dext = we - wflg;
   deg += dext;
   Iw[pn++] = e;
   hash += e;
      }
  }
     }
     Elen[i] = pn - p1 + 1;
     p3 = pn;
     p4 = p1 + Len[i];
     for (p = p2 + 1; p < p4; p++) {
  j = Iw[p];
  nvj = Nv[j];
  if (nvj > 0) {
      deg += nvj;
      Iw[pn++] = j;
      hash += j;
  }
     }
     if (Elen[i] == 1 && p3 == pn) {
  Pe[i] = FLIP (me);
  nvi = -Nv[i];
  degme -= nvi;
  nvpiv += nvi;
  nel += nvi;
  Nv[i] = 0;
  Elen[i] = EMPTY;
     }
     else {
  Degree[i] = MIN (Degree[i], deg);
  Iw[pn] = Iw[p3];
  Iw[p3] = Iw[p1];
  Iw[p1] = me;
  Len[i] = pn - p1 + 1;
  hash = hash % n;
  j = Head[hash];
  if (j <= EMPTY) {
      Next[i] = FLIP (j);
      Head[hash] = FLIP (i);
  }
  else {
      Next[i] = Last[j];
      Last[j] = i;
  }
  Last[i] = hash;
     }
 }
 Degree[me] = degme;
 lemax = MAX (lemax, degme);
 wflg += lemax;
 wflg = cleared (wflg, wbig, W, n);
 for (pme = pme1; pme <= pme2; pme++) {
     i = Iw[pme];
     if (Nv[i] < 0) {
  hash = Last[i];
  j = Head[hash];
  if (j == EMPTY) {
      i = EMPTY;
  }
  else if (j < EMPTY) {
      i = FLIP (j);
      Head[hash] = EMPTY;
  }
  else {
      i = Last[j];
      Last[j] = EMPTY;
  }
  while (i != EMPTY && Next[i] != EMPTY) {
      ln = Len[i];
      eln = Elen[i];
      for (p = Pe[i] + 1; p <= Pe[i] + ln - 1; p++) {
   W[Iw[p]] = wflg;
      }
      jlast = i;
      j = Next[i];
      while (j != EMPTY) {
   ok = (Len[j] == ln) && (Elen[j] == eln);
   for (p = Pe[j] + 1; ok && p <= Pe[j] + ln - 1; p++) {
       if (W[Iw[p]] != wflg) ok = 0;
   }
   if (ok) {
       Pe[j] = FLIP (i);
       Nv[i] += Nv[j];
       Nv[j] = 0;
       Elen[j] = EMPTY;
       j = Next[j];
       Next[jlast] = j;
   }
   else {
       jlast = j;
       j = Next[j];
   }
      }
      wflg++;
      i = Next[i];
  }
     }
 }
 p = pme1;
 nleft = n - nel;
 for (pme = pme1; pme <= pme2; pme++) {
     i = Iw[pme];
     nvi = -Nv[i];
     if (nvi > 0) {
  Nv[i] = nvi;
  deg = Degree[i] + degme - nvi;
  deg = MIN (deg, nleft - nvi);
  inext = Head[deg];
  if (inext != EMPTY) Last[inext] = i;
  Next[i] = inext;
  Last[i] = EMPTY;
  Head[deg] = i;
  mindeg = MIN (mindeg, deg);
  Degree[i] = deg;
  Iw[p++] = i;
     }
 }
 Nv[me] = nvpiv;
 Len[me] = p - pme1;
 if (Len[me] == 0) {
     Pe[me] = EMPTY;
     W[me] = 0;
 }
 if (elenme != 0) {
     pfree = p;
 }
 if (Info != (double *) NULL) {
     f = (double)nvpiv;
     r = (double)(degme + ndense);
     dmax = MAX (dmax, f + r);
     lnzme = f*r + (f-1)*f/2;
     lnz += lnzme;
     ndiv += lnzme;
     s = f*r*r + r*(f-1)*f + (f-1)*f*(2*f-1)/6;
     nms_lu += s;
     nms_ldl += (s + lnzme)/2;
 }
    }
    if (Info != (double *) NULL) {
 f = (double)ndense;
 dmax = MAX (dmax, (double) ndense);
 lnzme = (f-1)*f/2;
 lnz += lnzme;
 ndiv += lnzme;
 s = (f-1)*f*(2*f-1)/6;
 nms_lu += s;
 nms_ldl += (s + lnzme)/2;
 Info[AMD_LNZ] = lnz;
 Info[AMD_NDIV] = ndiv;
 Info[AMD_NMULTSUBS_LDL] = nms_ldl;
 Info[AMD_NMULTSUBS_LU] = nms_lu;
 Info[AMD_NDENSE] = (double)ndense;
 Info[AMD_DMAX] = dmax;
 Info[AMD_NCMPA] = (double)ncmpa;
 Info[AMD_STATUS] = AMD_OK;
    }
    for (i = 0; i < n; i++) {
 Pe[i] = FLIP (Pe[i]);
    }
    for (i = 0; i < n; i++) {
 Elen[i] = FLIP (Elen[i]);
    }
    for (i = 0; i < n; i++) {
 if (Nv[i] == 0) {
     j = Pe[i];
     if (j == EMPTY) {
  continue;
     }
     while (Nv[j] == 0) {
  j = Pe[j];
     }
     e = j;
     j = i;
     while (Nv[j] == 0) {
  jnext = Pe[j];
  Pe[j] = e;
  j = jnext;
     }
 }
    }
    AMD_postorder (n, Pe, Nv, Elen,
 W,
 Head, Next, Last);
    for (k = 0; k < n; k++) {
 Head[k] = EMPTY;
 Next[k] = EMPTY;
    }
    for (e = 0; e < n; e++) {
 k = W[e];
 if (k != EMPTY) {
     Head[k] = e;
 }
    }
    nel = 0;
    for (k = 0; k < n; k++) {
 e = Head[k];
 if (e == EMPTY) break;
 Next[e] = nel;
 nel += Nv[e];
    }
    for (i = 0; i < n; i++) {
 if (Nv[i] == 0) {
     e = Pe[i];
     if (e != EMPTY) {
  Next[i] = Next[e];
  Next[e]++;
     }
     else {
  Next[i] = nel++;
     }
 }
    }
    for (i = 0; i < n; i++) {
 k = Next[i];
 Last[k] = i;
    }
}
