"""Registry of the checks: drivers, trace modules, design models."""
PROPS = {}


def prop(pid, **k):
    PROPS[pid] = k


ALIGN = [dict(name="AlignMC", module="AlignMC", cfg="AlignMC_mid.cfg", workers=2, quick_only=True),
         dict(name="AlignMC", module="AlignMC", cfg="AlignMC_thorough.cfg", workers=6, thorough_only=True)]
EL = dict(mc=ALIGN, driver="drv_elastic.py", module="T_Elastic", parts=["numpy", "torch"], shards=3, budget=(7, 200))
for pid in ("E01", "E02", "E03", "E04", "E05", "E06"):
    prop(pid, **EL)

SOFT = [dict(name="SoftMC", module="SoftMC", cfg="SoftMC_quick.cfg", workers=2, quick_only=True),
        dict(name="SoftMC", module="SoftMC", cfg="SoftMC_thorough.cfg", workers=6, thorough_only=True)]
SO = dict(mc=SOFT, driver="drv_soft.py", module="T_Soft", parts=["numpy", "torch"], shards=3, budget=(7, 200))
for pid in ("E07", "E09", "E10", "E12"):
    prop(pid, **SO)
prop("E08", **{**SO, "parts": ["numpy", "torch", "loss"], "budget": (6, 200)})
prop("E11", **{**SO, "parts": ["pair", "cdist", "other"], "budget": (8, 200)})

DATA = [dict(name="DataMC", module="DataMC", cfg="DataMC_quick.cfg", workers=2, quick_only=True),
        dict(name="DataMC", module="DataMC", cfg="DataMC_thorough.cfg", workers=4, thorough_only=True)]
prop("D01", mc=DATA, driver="drv_data.py", module="T_Data", parts=["numpy", "torch"], shards=2, budget=(7, 150))
prop("D02", mc=DATA, driver="drv_data.py", module="T_Data", parts=["conv", "conv2"], shards=2, budget=(7, 150))
prop("D03", mc=[dict(name="UcrCache", module="UcrCache", cfg="UcrMC.cfg", workers=2)], driver="drv_cache.py", module="T_Cache", parts=["a", "b"], shards=2, budget=(8, 120),
     generate=[dict(name="ucr", out="ucr.json", module="UcrGen", cfg="UcrGen.cfg", depth=14, num=(30, 1200))],
     traces_of=lambda t, n: sum('"k": "start"' in x for x in open(t)))
TR = [dict(name="TransformMC", module="TransformMC", cfg="TransformMC_quick.cfg", workers=2, quick_only=True),
      dict(name="TransformMC", module="TransformMC", cfg="TransformMC_thorough.cfg", workers=4, thorough_only=True)]
prop("T01", mc=TR, driver="drv_trans.py", module="T_Transform", parts=["minmax", "meanvar"], shards=3, budget=(7, 120))
prop("T02", mc=TR, driver="drv_trans.py", module="T_Transform", parts=["resample", "impute", "sync"], shards=2, budget=(7, 120))
SX = [dict(name="SaxMC", module="SaxMC", cfg="SaxMC_quick.cfg", workers=2, quick_only=True),
      dict(name="SaxMC", module="SaxMC", cfg="SaxMC_thorough.cfg", workers=4, thorough_only=True)]
prop("T03", mc=SX, driver="drv_sax.py", module="T_Sax", parts=["paa", "sax", "oned"], shards=2, budget=(7, 120))
BA = [dict(name="BaryMC", module="BaryMC", cfg="BaryMC_quick.cfg", workers=2, quick_only=True),
      dict(name="BaryMC", module="BaryMC", cfg="BaryMC_thorough.cfg", workers=4, thorough_only=True)]
prop("C01", mc=BA, driver="drv_bary.py", module="T_Bary", parts=["simple", "step", "run", "soft"], shards=2, budget=(7, 120))
CL = [dict(name="ClusterMC", module="ClusterMC", cfg="ClusterMC_quick.cfg", workers=2, quick_only=True),
      dict(name="ClusterMC", module="ClusterMC", cfg="ClusterMC_thorough.cfg", workers=4, thorough_only=True)]
CLU = dict(mc=CL, driver="drv_cluster.py", module="T_Cluster", shards=2, budget=(7, 120))
prop("C02", parts=["kmeans", "kmeans2"], **CLU)
prop("C03", parts=["kernel", "kernel2"], **CLU)
prop("C05", parts=["dbscan", "dbscan2"], **CLU)
prop("C06", parts=["sil", "sil2"], **CLU)
KS = [dict(name="KShapeMC", module="KShapeMC", cfg="KShapeMC_quick.cfg", workers=2, quick_only=True),
      dict(name="KShapeMC", module="KShapeMC", cfg="KShapeMC_thorough.cfg", workers=4, thorough_only=True)]
prop("C04", mc=KS, driver="drv_kshape.py", module="T_KShape", parts=["corr", "model", "model2"], shards=2, budget=(7, 120))
NE = [dict(name="NeighborsMC", module="NeighborsMC", cfg="NeighborsMC_quick.cfg", workers=2, quick_only=True),
      dict(name="NeighborsMC", module="NeighborsMC", cfg="NeighborsMC_thorough.cfg", workers=4, thorough_only=True)]
prop("N01", mc=NE, driver="drv_neighbors.py", module="T_Neighbors", parts=["search", "vote", "mean"], shards=2, budget=(7, 120))
prop("S01", mc=[dict(name="SvmMC", module="SvmMC", cfg="SvmMC_quick.cfg", workers=2, quick_only=True), dict(name="SvmMC", module="SvmMC", cfg="SvmMC_thorough.cfg", workers=4, thorough_only=True)],
     driver="drv_svm.py", module="T_Svm", parts=["svc", "svr", "svc2"], shards=2, budget=(7, 120))
prop("Y01", mc=[dict(name="EarlyMC", module="EarlyMC", cfg="EarlyMC_quick.cfg", workers=2, quick_only=True), dict(name="EarlyMC", module="EarlyMC", cfg="EarlyMC_thorough.cfg", workers=4, thorough_only=True)],
     driver="drv_early.py", module="T_Early", parts=["a", "b", "c"], shards=2, budget=(7, 120))
prop("M01", mc=[dict(name="MatrixProfileMC", module="MatrixProfileMC", cfg="MatrixProfileMC_quick.cfg", workers=2, quick_only=True), dict(name="MatrixProfileMC", module="MatrixProfileMC", cfg="MatrixProfileMC_thorough.cfg", workers=4, thorough_only=True)],
     driver="drv_matrix.py", module="T_MatrixProfile", parts=["a", "b", "c"], shards=2, budget=(5, 100))
SE = [dict(name="SerialMC", module="SerialMC", cfg="SerialMC_quick.cfg", workers=2, quick_only=True), dict(name="SerialMC", module="SerialMC", cfg="SerialMC_thorough.cfg", workers=4, thorough_only=True)]
prop("B01", mc=SE, driver="drv_serial.py", module="T_Serial", parts=["near", "near2", "clus", "misc", "net", "skl"], shards=1, budget=(8, 150),
     generate=[dict(name="serial", out="serial.json", module="SerialGen", cfg="SerialGen.cfg", depth=11, num=(30, 1200))],
     traces_of=lambda t, n: sum('"k": "start"' in x for x in open(t)))
LI = [dict(name="LifeMC", module="LifeMC", cfg="LifeMC_quick.cfg", workers=2, quick_only=True), dict(name="LifeMC", module="LifeMC", cfg="LifeMC_thorough.cfg", workers=4, thorough_only=True)]
prop("B02", mc=LI, driver="drv_life.py", module="T_Life", parts=["near", "near2", "clus", "misc", "net", "skl"], shards=1, budget=(8, 150),
     generate=[dict(name="life", out="life.json", module="LifeGen", cfg="LifeGen.cfg", depth=10, num=(30, 1200))],
     traces_of=lambda t, n: sum('"k": "start"' in x for x in open(t)))
BM = [dict(name="BatchMC", module="BatchMC", cfg="BatchMC_quick.cfg", workers=2, quick_only=True), dict(name="BatchMC", module="BatchMC", cfg="BatchMC_thorough.cfg", workers=4, thorough_only=True)]
prop("B03", mc=BM, driver="drv_batch.py", module="T_Batch", parts=["near", "near2", "clus", "misc", "net", "skl"], shards=1, budget=(7, 120),
     generate=[dict(name="batch", out="batch.json", module="BatchGen", cfg="BatchGen.cfg", depth=40, num=(40, 600))],
     traces_of=lambda t, n: sum('"k": "start"' in x for x in open(t)))
prop("L01", mc=[dict(name="ShapeletMC", module="ShapeletMC", cfg="ShapeletMC_quick.cfg", workers=2, quick_only=True), dict(name="ShapeletMC", module="ShapeletMC", cfg="ShapeletMC_thorough.cfg", workers=4, thorough_only=True)],
     driver="drv_shapelet.py", module="T_Shapelet", parts=["a", "b", "c", "d"], shards=1, budget=(9, 120))
prop("F01", mc=[dict(name="VarimaMC", module="VarimaMC", cfg="VarimaMC_quick.cfg", workers=2, quick_only=True), dict(name="VarimaMC", module="VarimaMC", cfg="VarimaMC_thorough.cfg", workers=4, thorough_only=True)],
     driver="drv_varima.py", module="T_Varima", parts=["exact", "ma", "auto"], shards=2, budget=(8, 120))
prop("P01", mc=[dict(name="PerfMC", module="PerfMC", cfg="PerfMC_quick.cfg", workers=2, quick_only=True), dict(name="PerfMC", module="PerfMC", cfg="PerfMC_thorough.cfg", workers=4, thorough_only=True)],
     driver="drv_perf.py", module="T_Perf", parts=["a", "b"], shards=2, budget=(5, 60))
prop("G01", mc=[dict(name="WalkMC", module="WalkMC", cfg="WalkMC_quick.cfg", workers=2, quick_only=True), dict(name="WalkMC", module="WalkMC", cfg="WalkMC_thorough.cfg", workers=4, thorough_only=True)],
     driver="drv_walk.py", module="T_Walk", parts=["a", "b"], shards=2, budget=(6, 60),
     generate=[dict(name="walk", out="walk.json", module="WalkGen", cfg="WalkGen.cfg", depth=13, num=(40, 1500))],
     traces_of=lambda t, n: sum('"k": "start"' in x for x in open(t)))
prop("W01", mc=[dict(name="MlpMC", module="MlpMC", cfg="MlpMC_quick.cfg", workers=2, quick_only=True), dict(name="MlpMC", module="MlpMC", cfg="MlpMC_thorough.cfg", workers=4, thorough_only=True)],
     driver="drv_mlp.py", module="T_Mlp", parts=["classifier", "regressor"], shards=2, budget=(6, 60),
     generate=[dict(name="mlp", out="mlp.json", module="MlpGen", cfg="MlpGen.cfg", depth=13, num=(40, 1500))],
     traces_of=lambda t, n: sum('"k": "start"' in x for x in open(t)))
