# drives the language server: s = Server(); s.send(method, params, id) ...; s.run() -> list of messages
import json,subprocess
CND='/repo/_build/src/cli/cnd'
class Server:
    def __init__(s): s.inp=b''; s.n=0
    def raw(s,body,headers=b''):
        if isinstance(body,str): body=body.encode()
        s.inp+=b'Content-Length: %d\r\n'%len(body)+headers+b'\r\n'+body
    def note(s,method,params): s.raw(json.dumps({'jsonrpc':'2.0','method':method,'params':params}))
    def ask(s,method,params,headers=b''):
        s.n+=1; s.raw(json.dumps({'jsonrpc':'2.0','id':s.n,'method':method,'params':params}),headers); return s.n
    def open(s,uri,text): s.note('textDocument/didOpen',{'textDocument':{'uri':uri,'languageId':'cnd','version':1,'text':text}})
    def change(s,uri,*texts): s.note('textDocument/didChange',{'textDocument':{'uri':uri,'version':2},'contentChanges':[{'text':t} for t in texts]})
    def run(s):
        r=subprocess.run([CND,'lsp'],input=s.inp,capture_output=True,timeout=60); o=r.stdout; res=[]
        while o:
            h,_,rest=o.partition(b'\r\n\r\n'); n=int(h.split(b':')[1]); b=rest[:n]; assert len(b)==n; res.append(json.loads(b)); o=rest[n:]
        return res
