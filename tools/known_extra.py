FIX={}
def _f(s):
    for l in s.split("\n"):
        p=l.split()
        if len(p)==2: FIX[p[0]]=p[1]
_f("""942447f T01
4db593f T05
83a4929 T06
439f7dc T06
265409f T02
bdbf876 T07
421de6c T05
167da96 T08
0e86351 T02
836f76e M01
6d071ce U01
82a2627 M01
6f664ea S03
f1f370d M01
a16c756 M01
d4b2465 A10
9700766 S03
1d86863 A01
14025b6 A01
861d3df A01
1f8efab A10
63bbf3a A02
e5b1515 A02
0b156b7 T03
ef48ca1 A12
f8e7c60 A11
2b73899 A05
bc2e3a4 A05
1ba83bf A05
4595ed3 A05
f49b506 A06
f1a0755 A06
a86032e A06
2813de9 A06
6481de4 A06
32bccae A09
2d2d7fa A09
89d635b A09
66665f2 A09
d007fc8 A07
d78f014 A07
916f3ba A07
0c6aaf7 A07
ab45abd A07
eebc10d A07
da289f0 A07
3d680e9 A07
b3e8062 A03
2a05c21 O01
e03b232 O01
d6f981f A08
17ca4fa A12
33a0087 A01
fba6179 A13
a220fb7 A13
5af7b67 O02
ea3b3f0 O03
bdabf78 O03
623d49e O03
2c6e804 O03
b1665ea O01
3516c86 O03
f35d70c O03
3d9bde6 S01
2d365b1 S02
d7abb7b U01
db8fa0d D01
c37b908 I01
827865e I01
1594bee I01
1868bea I01
b6aa6d7 G01
b63ff80 M02
f46d9b7 M02
06807e7 M02
a4c4cba M02
3caab7c M02
71fa802 M02
7af10ac M02
e2259d8 M02
7f6680b M02
5dc2e14 M02
85f48fd M02
ea17287 M02
6d897c1 M02
17fa569 M02""")

known("A04","A04-mean-batch-scale","A04/gradient-of-reported-mean","gradient-divided-by-leading-dimension-only",["mean_reduce"],"mean_reduce of a [batch,features] tensor: every element receives the incoming gradient divided by batch, not by batch*features")

known("O03","O03-model-applied-twice","O03/model-applied-twice","applied-twice:value",["relu"],"a model applied twice inside one expression: the copied operators share their internal buffers, so both occurrences show the value of the later one")
known("S01","S01-normalization-statistics","another-process-normalization","prediction-after-restore",["batch normalization"],"the running statistics of BatchNormalization are not variables and are not saved: a process that restores the weights predicts differently")
