import ctypes
class Native:
    def __init__(self,so,entries,extra=None):
        self.lib=ctypes.CDLL(so); self.by={f.sym:f for f in entries}; self.extra=extra or {}
    def types(self,sym):
        if sym in self.by: return self.by[sym].args
        return self.extra[sym]
    def call(self,sym,*vals):
        """returns (status, value); status False = panicked"""
        fn=getattr(self.lib,sym); fn.restype=ctypes.c_double
        ts=self.types(sym); cv=[]
        for (k,t),v in zip(ts,vals):
            cv.append(ctypes.c_uint8(int(v)) if t=='u8' else ctypes.c_double(float(v)) if t=='f64' else ctypes.c_uint64(int(v)) if t in('u64','usize') else v)
        ok=ctypes.c_uint8(0)
        r=fn(*cv,ctypes.byref(ok))
        return bool(ok.value),r
    def kw(self,sym,**d):
        return self.call(sym,*[d[k] for k,_ in self.types(sym)])
