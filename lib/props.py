"""Which areas decide which property. An area = a driver family + its TLA+ modules."""

AREAS = {
    "parallel": dict(mc=[("ParallelImpl", "ParallelImpl.cfg")], gen=["ParallelGen"], trace="ParallelTrace",
                     tracecfg="TraceInv.cfg"),
    "splitter": dict(mc=[("SplitterMC", "SplitterMC.cfg")], gen=["SplitterGen"], trace="SplitterTrace"),
    "crossval": dict(mc=[("CrossValImpl", "CrossValImpl.cfg")], gen=["CrossValGen"], trace="CrossValTrace",
                     tracecfg="TraceInv.cfg"),
    "gridsearch": dict(mc=[("GridSearchImpl", "GridSearchImpl.cfg")], gen=["GridSearchGen"], trace="GridSearchTrace"),
    "pipeline": dict(gen=["PipelineGen"], trace="PipelineTrace", tracecfg="HistJudge.cfg"),
    "source": dict(mc=[("SourceMC", "SourceMC.cfg")], trace="SourceTrace", tracecfg="HistJudge.cfg"),
    "scalers": dict(gen=["ScalersGen"], trace="ScalersTrace", tracecfg="HistJudge.cfg"),
    "labels": dict(gen=["LabelsGen"], trace="LabelsTrace", tracecfg="HistJudge.cfg"),
    "rowwise": dict(gen=["RowwiseGen"], trace="RowwiseTrace", tracecfg="HistJudge.cfg"),
    "powers": dict(trace="PowersTrace", tracecfg="HistJudge.cfg"),
    "bins": dict(gen=["BinsGen"], trace="BinsTrace", tracecfg="HistJudge.cfg"),
    "pca": dict(trace="PCATrace", tracecfg="HistJudge.cfg"),
    "clfmetrics": dict(gen=["ClfMetricsGen"], trace="ClfMetricsTrace"),
    "ranking": dict(gen=["RankingGen"], trace="RankingTrace"),
    "regmetrics": dict(trace="RegMetricsTrace"),
    "neighbors": dict(gen=["NeighborsGen"], trace="NeighborsTrace", tracecfg="HistJudge.cfg"),
    "knn": dict(gen=["KNNGen"], trace="KNNTrace", tracecfg="HistJudge.cfg"),
    "dbscan": dict(mc=[("DBSCANImpl", "DBSCANImpl.cfg")], gen=["DBSCANGen"], trace="DBSCANTrace", tracecfg="HistJudge.cfg"),
    "kmeans": dict(mc=[("KMeansImpl", "KMeansImpl.cfg")], gen=["KMeansGen"], trace="KMeansTrace"),
    "nb": dict(gen=["NBGen"], trace="NBTrace", tracecfg="HistJudge.cfg"),
    "svm": dict(trace="SVMTrace"),
    "losses": dict(trace="LossesTrace"),
    "linfit": dict(trace="LinFitTrace"),
    "linreg": dict(trace="LinRegTrace"),
    "enet": dict(trace="LinRegTrace"),
    "optim": dict(gen=["OptimGen"], trace="OptimTrace", tracecfg="HistJudge.cfg"),
    "interp": dict(gen=["InterpGen"], trace="InterpTrace"),
    "gp": dict(gen=["KernelsGen"], trace="KernelsTrace", tracecfg="HistJudge.cfg"),
    "adapters": dict(gen=["AdaptersGen"], trace="AdaptersTrace", tracecfg="HistJudge.cfg"),
    "datasets": dict(trace="DatasetsTrace", tags="datasets", cwd="/repo"),
    "logistic": dict(trace="LogisticTrace", tracecfg="HistJudge.cfg"),
    "mlp": dict(trace="MLPTrace"),
    "memory": dict(gen=["MemoryGen"], trace="MemoryTrace"),
    "life": dict(gen=["LifecycleGen"], trace="LifecycleTrace"),
}
for _n, _a in AREAS.items():
    _a["name"] = _n


def prop(*areas, **kw):
    return dict(areas=[AREAS[a] for a in areas], **kw)


NOTES = {}
PROPS = {
    "P01": prop("parallel"),
    "P02": prop("splitter"),
    "P03": prop("crossval"),
    "P04": prop("gridsearch"),
    "P05": prop("pipeline"),
    "P06": prop("source"),
    "P07": prop("scalers"),
    "P08": prop("labels"),
    "P09": prop("rowwise"),
    "P33": prop("powers"),
    "P10": prop("bins"),
    "P11": prop("pca"),
    "P12": prop("clfmetrics"),
    "P13": prop("ranking"),
    "P14": prop("regmetrics"),
    "P15": prop("neighbors"),
    "P16": prop("knn"),
    "P17": prop("dbscan"),
    "P18": prop("kmeans"),
    "P19": prop("nb"),
    "P20": prop("svm"),
    "P24": prop("losses"),
    "P34": prop("linfit"),
    "P21": prop("linreg"),
    "P22": prop("enet"),
    "P23": prop("optim"),
    "P25": prop("interp"),
    "P26": prop("gp"),
    "P30": prop("adapters"),
    "P31": prop("datasets"),
    "P32": prop("logistic"),
    "P27": prop("mlp"),
    "P28": prop("life"),
    "P29": prop("memory"),
}
