import re
R={}; ONLY={}
N='netx/connection/connection.go'; K='netx/connector/connector.go'; PO='netx/pool/fifoch/fifoch.go'
B='builder.go'; C='crud.go'; D='types/decimal.go'; SL='slice/slice.go'; PB='xproto/protobuf.go'; E='expr.go'; XP='xpipe.go'
A='netx/connector/authentication/'
def ren(*pairs):
    if pairs and isinstance(pairs[0],str): pairs=[pairs]
    def f(s):
        for a,b in pairs: s=re.sub(a,b,s)
        return s
    return f
R['conn-fields']=[(N,ren(r'\bc\.netConn\b','c.nc'),0),(N,ren(r'\bc\.r\b','c.rd'),0),(N,ren(r'\bnetConn net\.Conn\n\tr  ','nc net.Conn\n\trd  ',),0),(N,ren(r'netConn: netConn','nc: netConn'),0),(N,ren(r'\n\t\tr:  ','\n\t\trd:  '),0)]
R['conn-type']=[(N,ren(r'\*conn\b','*xconn'),0),(N,ren(r'type conn\b','type xconn'),0),(N,ren(r'&conn\{','&xconn{'),0)]
R['connector-fields']=[(K,ren(*[(r'\b(cnn|c)\.%s\b'%x, r'\1.%s'%y) for x,y in [('network','netw'),('address','addr'),('dialer','dial'),('tlsConfig','tlsCfg'),('authentication','auth'),('userName','user'),('password','pass'),('database','schema')]]),0),
 (K,ren(r'\n\tnetwork string\n\taddress string\n','\n\tnetw string\n\taddr string\n'),0),
 (K,ren(r'\n\tdialer  ','\n\tdial  '),0),(K,ren(r'\n\ttlsConfig  ','\n\ttlsCfg  '),0),(K,ren(r'\n\tauthentication a','\n\tauth a'),0),(K,ren(r'\n\tuserName  ','\n\tuser  '),0),(K,ren(r'\n\tpassword  ','\n\tpass  '),0),(K,ren(r'\n\tdatabase  ','\n\tschema  '),0),
 (K,ren(r'network:   ','netw:   '),0),(K,ren(r'address:   ','addr:   '),0),(K,ren(r'dialer:   ','dial:   '),0),(K,ren(r'authentication: m','auth: m'),0)]
R['pool-fields']=[(PO,ren(r'\bp\.ch\b','p.idle'),0),(PO,ren(r'\bp\.connector\b','p.factory'),0),(PO,ren(r'\bp\.mu\b','p.lock'),0),(PO,ren(r'\bp\.closed\b','p.shut'),0),
 (PO,ren(r'\n\tmu  ','\n\tlock  '),0),(PO,ren(r'\n\tclosed  ','\n\tshut  '),0),(PO,ren(r'\n\tch  ','\n\tidle  '),0),(PO,ren(r'\n\tconnector netx','\n\tfactory netx'),0),(PO,ren(r'connector: c','factory: c'),0),(PO,ren(r'\bch:  ','idle:  '),0)]
R['pool-type']=[(PO,ren(r'\bpoolCh\b','fifo'),0)]
R['pool-embedded-mutex']=[(PO,ren(r'\n\tmu   *sync.Mutex','\n\tsync.Mutex'),0),(PO,ren(r'\bp\.mu\.','p.'),0)]
for m in ('mysql41','sha256','plain'):
    R['auth-type-'+m]=[(A+m+'/'+m+'.go',ren(r'\bauth\b','mechanism'),0)]
    R['auth-ptr-'+m]=[(A+m+'/'+m+'.go',ren(r'func \(auth\)','func (*auth)'),0)]
    ONLY['auth-type-'+m]=ONLY['auth-ptr-'+m]=['C18','C19']
R['auth-value-plain']=[(A+'plain/plain.go',ren(r'func New\(\) \*auth','func New() auth'),0),(A+'plain/plain.go',ren(r'&auth\{\}','auth{}'),0)]
ONLY['auth-value-plain']=['C18','C19']
BF=[(r'\b(b|child)\.buf\b',r'\1.out'),(r'\bbuf   *\[\]byte\n\terr   *error\n\tdisabled','out []byte\n\tfailure error\n\tfrozen'),(r'\bbuf:   *b','out: b'),(r'\b(b|child)\.err\b',r'\1.failure'),(r'\b(b|child)\.disabled\b',r'\1.frozen'),(r'\berr:   *b','failure: b'),(r'\bdisabled: *','frozen: ')]
R['builder-fields']=[(B,ren(*BF),0),(C,ren(*BF),0),(XP,ren((r'buf: make','out: make'),(r'\bx\.(Builder\.)?buf\b',r'x.\1out'),(r'\bx\.(Builder\.)?err\b',r'x.\1failure')),0)]
R['crud-fields']=[(C,ren((r'\b(i|u)\.buf\b',r'\1.p'),(r'\n\tbuf \[\]byte','\n\tp []byte'),(r'(Insert|Update)\{buf:',r'\1{p:')),0)]
R['expr-types']=[(E,ren(r'\bxmlString\b','xmlText'),0),(E,ren(r'\bxml\b','xmlDoc'),0),(E,ren(r'\bjsonString\b','jsonText'),0),(E,ren(r'\bjson\b','jsonDoc'),0),(E,ren(r'\bgeometry\b','geo'),0)]
ONLY['expr-types']=['C01','C02','C03','C06','C08']

R['crud-base']=[(C,ren((r'type Insert struct \{\n\tbuf \[\]byte\n\terr error\n\}','type part struct {\n\tbuf []byte\n\terr error\n}\n\ntype Insert struct {\n\tpart\n}'),(r'type Update struct \{\n\tbuf \[\]byte\n\terr error\n\}','type Update struct {\n\tpart\n}'),(r'&Insert\{buf: xproto.Insert\(b.buf, name, columns\)\}','&Insert{part{buf: xproto.Insert(b.buf, name, columns)}}')),0)]
R['builder-state']=[(B,ren((r'\tbuf   *\[\]byte\n\terr   *error\n','\tstate\n'),(r'type Builder struct','type state struct {\n\tbuf []byte\n\terr error\n}\n\ntype Builder struct'),(r'\bbuf: +b\.buf,\n\t\terr: +b.err,','state: b.state,')),0),(XP,'Builder{buf: make([]byte, 0, n)}','Builder{state: state{buf: make([]byte, 0, n)}}')]
R['builder-extra-field']=[(B,'	disabled bool\n','	disabled bool\n	depth    int\n'),(B,'		disabled: false,\n','		disabled: false,\n		depth:    b.depth + 1,\n')]
R['builder-child-copy']=[(B,"""	var child = Builder{
		buf:      b.buf,
		err:      b.err,
		disabled: false,
	}
	b.disabled = true""","""	child := *b
	child.disabled = false
	b.disabled = true""")]
R['conn-embed']=[(N,ren((r'netConn net\.Conn\n','net.Conn\n'),(r'\bc\.netConn\b','c.Conn'),(r'netConn: netConn','Conn: netConn')),0)]
R['conn-rw']=[(N,ren((r'netConn net\.Conn\n\tr  +\*bufio.Reader\n','netConn net.Conn\n\tr       *bufio.Reader\n\ttmp     [5]byte\n')),0)]
R['connector-creds']=[(K,ren((r'\n\tuserName +string\n\tpassword +string\n\tdatabase +string\n','\n\tcreds struct{ user, pass, db string }\n'),(r'\b(c|cnn)\.userName',r'\1.creds.user'),(r'\b(c|cnn)\.password',r'\1.creds.pass'),(r'\b(c|cnn)\.database',r'\1.creds.db')),0)]
R['pool-chan-struct']=[(PO,ren((r'\n\tmu  +sync.Mutex\n\tclosed +bool','\n\tstate struct {\n\t\tsync.Mutex\n\t\tclosed bool\n\t}'),(r'p\.mu\.','p.state.'),(r'p\.closed','p.state.closed')),0)]
R['collation-type']=[]
del R['collation-type']
