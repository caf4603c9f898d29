/* smooth waves in every variable; reports conservation, div B and the final state */
#include "copyright.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"
/*DEMO_TOP*/
static double tot0[8+NSCALARS];
static Real A(int c, Real x, Real y, Real z){
  switch(c){ case 1: return 0.1*sin(2*PI*(y+2*z)); case 2: return 0.08*sin(2*PI*(z+x)+0.3); default: return 0.09*cos(2*PI*(x+y)+0.7)+0.05*sin(4*PI*y);} }
static void totals(GridS *pG, double *t){
  int i,j,k,n; for(n=0;n<8+NSCALARS;n++) t[n]=0;
  for(k=pG->ks;k<=pG->ke;k++)for(j=pG->js;j<=pG->je;j++)for(i=pG->is;i<=pG->ie;i++){ ConsS *u=&pG->U[k][j][i];
    t[0]+=u->d;t[1]+=u->M1;t[2]+=u->M2;t[3]+=u->M3;
#ifndef BAROTROPIC
    t[4]+=u->E;
#endif
#ifdef MHD
    t[5]+=u->B1c;t[6]+=u->B2c;t[7]+=u->B3c;
#endif
#if (NSCALARS > 0)
    for(n=0;n<NSCALARS;n++) t[8+n]+=u->s[n];
#endif
  }}
void problem(DomainS *pDomain){
  GridS *pG=pDomain->Grid; int i,j,k; Real x,y,z;
  int d2=(pG->Nx[1]>1), d3=(pG->Nx[2]>1);
#ifdef MHD
  Real h1=pG->dx1,h2=pG->dx2,h3=pG->dx3;
  for(k=pG->ks;k<=pG->ke+d3;k++)for(j=pG->js;j<=pG->je+d2;j++)for(i=pG->is;i<=pG->ie+1;i++){
    cc_pos(pG,i,j,k,&x,&y,&z); x-=0.5*h1; y-=0.5*h2*d2; z-=0.5*h3*d3;   /* lower corner */
    Real xc=x+0.5*h1, yc=y+0.5*h2*d2, zc=z+0.5*h3*d3;
    pG->B1i[k][j][i]=0.5+(d2?(A(3,x,y+h2,zc)-A(3,x,y,zc))/h2:0)-(d3?(A(2,x,yc,z+h3)-A(2,x,yc,z))/h3:0);
    pG->B2i[k][j][i]=0.3+(d3?(A(1,xc,y,z+h3)-A(1,xc,y,z))/h3:0)-(A(3,x+h1,y,zc)-A(3,x,y,zc))/h1;
    pG->B3i[k][j][i]=0.2+(A(2,x+h1,yc,z)-A(2,x,yc,z))/h1-(d2?(A(1,xc,y+h2,z)-A(1,xc,y,z))/h2:0);
  }
#endif
  for(k=pG->ks;k<=pG->ke;k++)for(j=pG->js;j<=pG->je;j++)for(i=pG->is;i<=pG->ie;i++){ ConsS *u=&pG->U[k][j][i];
    cc_pos(pG,i,j,k,&x,&y,&z); if(!d2) y=0.13; if(!d3) z=0.21;
    u->d=1.0+0.2*sin(2*PI*x+0.1)+0.1*cos(2*PI*y)+0.1*sin(2*PI*z+0.4);
    u->M1=u->d*(0.3+0.2*sin(2*PI*(x+y))); u->M2=u->d*(0.2+0.15*cos(2*PI*(y+z))); u->M3=u->d*(-0.25+0.2*sin(2*PI*(z-x)));
#ifdef MHD
    u->B1c=0.5*(pG->B1i[k][j][i]+pG->B1i[k][j][i+1]);
    u->B2c=d2?0.5*(pG->B2i[k][j][i]+pG->B2i[k][j+1][i]):pG->B2i[k][j][i];
    u->B3c=d3?0.5*(pG->B3i[k][j][i]+pG->B3i[k+1][j][i]):pG->B3i[k][j][i];
#endif
#ifndef BAROTROPIC
    u->E=(1.0+0.2*cos(2*PI*(x+y+z)))/Gamma_1+0.5*(SQR(u->M1)+SQR(u->M2)+SQR(u->M3))/u->d;
#ifdef MHD
    u->E+=0.5*(SQR(u->B1c)+SQR(u->B2c)+SQR(u->B3c));
#endif
#endif
#if (NSCALARS > 0)
    {int n; for(n=0;n<NSCALARS;n++) u->s[n]=u->d*(0.5+0.3*sin(2*PI*(x+0.2*n))*cos(2*PI*(y-z)+n));}
#endif
  }
/*DEMO_INIT*/
  totals(pG,tot0);
}
void problem_write_restart(MeshS *pM, FILE *fp){}
void problem_read_restart(MeshS *pM, FILE *fp){ totals(pM->Domain[0][0].Grid,tot0); }
ConsFun_t get_usr_expr(const char *expr){return NULL;}
VOutFun_t get_usr_out_fun(const char *name){return NULL;}
#ifdef RESISTIVITY
void get_eta_user(GridS *pG, int i, int j, int k, Real *eta_O, Real *eta_H, Real *eta_A){*eta_O=*eta_H=*eta_A=0.0;}
#endif
void Userwork_in_loop(MeshS *pM){}
void Userwork_after_loop(MeshS *pM){
  DomainS *pD=&(pM->Domain[0][0]); GridS *pG=pD->Grid; int i,j,k,n; double t[8+NSCALARS],e=0;
  if(pG==NULL) return;
/*DEMO_AFTER*/
  totals(pG,t);
  for(n=0;n<8+NSCALARS;n++){ double x=fabs(t[n]-tot0[n]); printf("DEMO total %d change %e\n",n,x); if(x>e)e=x; }
  printf("DEMO conservation %s\n", e<1e-8?"ok":"BROKEN");
#ifdef MHD
  {double m=0; int d2=(pG->Nx[1]>1), d3=(pG->Nx[2]>1);
  for(k=pG->ks;k<=pG->ke;k++)for(j=pG->js;j<=pG->je;j++)for(i=pG->is;i<=pG->ie;i++){
    double q=(pG->B1i[k][j][i+1]-pG->B1i[k][j][i])/pG->dx1; if(d2) q+=(pG->B2i[k][j+1][i]-pG->B2i[k][j][i])/pG->dx2;
    if(d3) q+=(pG->B3i[k+1][j][i]-pG->B3i[k][j][i])/pG->dx3; if(!(fabs(q)<m)) m=fabs(q);}
  printf("DEMO divB %e %s\n",m,m<1e-10?"ok":"BROKEN");}
#endif
  { char f[80]; sprintf(f,"final.%d.txt",myID_Comm_world); FILE *fp=fopen(f,"w");
  for(k=pG->ks;k<=pG->ke;k++)for(j=pG->js;j<=pG->je;j++)for(i=pG->is;i<=pG->ie;i++){ ConsS *u=&pG->U[k][j][i];
    fprintf(fp,"%03d %03d %03d %.10f %.10f %.10f %.10f",k-pG->ks+pG->Disp[2],j-pG->js+pG->Disp[1],i-pG->is+pG->Disp[0],u->d,u->M1,u->M2,u->M3);
#ifndef BAROTROPIC
    fprintf(fp," %.10f",u->E);
#endif
#ifdef MHD
    fprintf(fp," %.10f %.10f %.10f",u->B1c,u->B2c,u->B3c);
#endif
#if (NSCALARS > 0)
    for(n=0;n<NSCALARS;n++) fprintf(fp," %.10f",u->s[n]);
#endif
    fprintf(fp,"\n"); } fclose(fp);}
}
