"""Minimal stand-in: LDA exchange (1), PW92 correlation (12), TF-like/vW GGA kinetic (500)."""
import numpy as np
def _pw(rs, a, a1, b1, b2, b3, b4):
    q0=-2*a*(1+a1*rs); q1=2*a*(b1*rs**.5+b2*rs+b3*rs**1.5+b4*rs**2)
    return q0*np.log(1+1/q1)
def pw92(na, nb):
    n=na+nb; rs=(3/(4*np.pi*n))**(1/3); z=(na-nb)/n
    e0=_pw(rs,.0310907,.21370,7.5957,3.5876,1.6382,.49294)
    e1=_pw(rs,.01554535,.20548,14.1189,6.1977,3.3662,.62517)
    ac=-_pw(rs,.0168869,.11125,10.357,3.6231,.88026,.49671)
    f=((1+z)**(4/3)+(1-z)**(4/3)-2)/(2**(4/3)-2); f2=1.709921
    return e0+ac*f/f2*(1-z**4)+(e1-e0)*f*z**4
class LibXCFunctional:
    def __init__(self, fid, pol): self.fid, self.pol = fid, pol
    def compute(self, inp):
        rho=np.maximum(np.asarray(inp["rho"],float),1e-30)
        if self.fid==1:
            cx=-(3/4)*(3/np.pi)**(1/3)
            if self.pol==1:
                return {"zk":cx*rho**(1/3),"vrho":4/3*cx*rho**(1/3)}
            e=2**(1/3)*cx*(rho**(4/3)).sum(1,keepdims=True)/rho.sum(1,keepdims=True)
            return {"zk":e,"vrho":4/3*cx*2**(1/3)*rho**(1/3)}
        if self.fid==12:
            if self.pol==1: na=nb=rho[:,0]/2
            else: na,nb=rho[:,0],rho[:,1]
            g=lambda a,b:(a+b)*pw92(a,b)
            def d(a,b,which):
                h=1e-5*(a if which==0 else b)
                return (g(a+h,b)-g(a-h,b))/(2*h) if which==0 else (g(a,b+h)-g(a,b-h))/(2*h)
            e=pw92(na,nb)[:,None]
            if self.pol==1: v=d(na,nb,0)[:,None]
            else: v=np.stack([d(na,nb,0),d(na,nb,1)],1)
            return {"zk":e,"vrho":v}
        if self.fid in (5,500):
            s=np.asarray(inp["sigma"],float)
            if self.pol==1:
                return {"zk":s/(8*rho**2),"vrho":-s/(8*rho**2),"vsigma":1/(8*rho)}
            na,nb=rho[:,0],rho[:,1]; n=na+nb
            e=(s[:,0]/na+s[:,2]/nb)/8/n
            vs=np.stack([1/(8*na),0*na,1/(8*nb)],1)
            return {"zk":e[:,None],"vrho":np.stack([-s[:,0]/8/na**2,-s[:,2]/8/nb**2],1),"vsigma":vs}
        raise ValueError(self.fid)
