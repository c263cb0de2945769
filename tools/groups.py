"""What each check runs. jobs: (scenario, option, runs in quick, runs in thorough)."""
CHECKS = {}
def add(pid, **kw):
    CHECKS[pid] = kw
CR = dict(trace="CrawlTrace", design=[("Crawl", "CrawlQuick", "CrawlThorough")])
add("C01", jobs=[("crawl", "complete", 4000, 60000), ("crawl", "", 1600, 30000)], **CR)
add("C02", jobs=[("crawl", "complete", 4000, 60000), ("crawl", "", 1600, 30000)], **CR)
add("C03", jobs=[("crawl", "cancel", 3000, 40000), ("crawl", "fail", 3000, 40000), ("crawl", "", 800, 20000)], **CR)
add("C04", jobs=[("crawl", "fail", 3500, 50000), ("crawl", "cancel", 2000, 30000)], **CR)
add("C05", jobs=[("crawl", "conc", 4500, 80000)], **CR)
add("C06", jobs=[("crawl", "scope", 4000, 60000), ("crawl", "", 1000, 20000)], **CR)
add("C07", jobs=[("crawl", "robots", 4000, 80000), ("robots", "", 4000, 80000, "RobotsTrace"), ("robotscases", "", 632, 4888, "RobotsTrace")], trace="CrawlTrace",
    gen=("Robots", "RobotsGen", "RobotsGenThorough"), design=[("Crawl", "CrawlQuick", "CrawlThorough"), ("Robots", "RobotsQuick", "RobotsThorough")])
PO = dict(trace="PoliteTrace", design=[("Polite", "PoliteQuick", "PoliteThorough")])
add("C08", jobs=[("polite", "", 4500, 80000)], **PO)
add("C09", jobs=[("polite", "limit", 3000, 50000), ("limit", "", 2500, 50000)], **PO)
add("C10", jobs=[("queue", "", 5000, 100000), ("queuestress", "", 1500, 20000)], trace="QueueTrace", design=[("Queue", "QueueQuick", "QueueThorough"), ("Queue", "QueueCancel", "QueueCancelThorough")])
add("C11", jobs=[("dedupe", "", 8000, 150000), ("dedupestress", "", 3000, 50000)], trace="DedupeTrace",
    design=[("Dedupe", "DedupeMap", "DedupeMapThorough"), ("Dedupe", "DedupeBloom", "DedupeBloomThorough")])
add("C12", jobs=[("norm", "cases", 560, 4500), ("norm", "", 1500, 40000)], trace="NormTrace", gen=("Norm", "NormGen", "NormGenThorough"),
    design=[("Norm", "NormQuick", "NormThorough")])
FE = dict(trace="FetchTrace", design=[("Fetch", "FetchQuick", "FetchThorough")])
add("C13", jobs=[("fetch", "", 6000, 100000), ("fetchengine", "", 1500, 30000), ("fetchengine", "tmp", 200, 1000)], **FE)
add("C14", jobs=[("fetchengine", "", 3500, 60000), ("fetch", "", 3000, 50000), ("http", "", 3000, 50000, "HttpTrace")], trace="FetchTrace",
    design=[("Fetch", "FetchQuick", "FetchThorough"), ("Http", "HttpQuick", "HttpThorough")])
HT = dict(trace="HttpTrace", gen=("HttpGen", "HttpGen", "HttpGenThorough"),
          design=[("Http", "HttpQuick", "HttpThorough"), ("Http", "HttpSeq", "HttpSeqThorough"), ("Http", "HttpAgg", "HttpAggThorough")])
HN = dict(HT); del HN["gen"]
add("C15", jobs=[("http", "", 8000, 120000), ("http", "conc", 2000, 40000), ("httpcases", "", 240, 3000)], **HT)
add("C16", jobs=[("httpcases", "", 240, 3000), ("http", "", 6000, 120000)], **HT)
add("C17", jobs=[("http", "", 8000, 120000), ("http", "conc", 3000, 60000)], **HN)
add("C18", jobs=[("http", "", 8000, 120000), ("http", "conc", 2000, 40000)], **HN)
DK = dict(trace="DiskTrace", os="antcache,internal")
add("C19", jobs=[("crash", "", 9000, 150000)], design=[("Disk", "DiskCrash", "DiskCrashThorough"), ("Disk", "DiskReboot", "DiskReboot")], **DK)
add("C20", jobs=[("disk", "", 16000, 250000)], design=[("Disk", "DiskQuick", "DiskThorough"), ("Disk", "DiskReopen", "DiskReopenThorough")], **DK)
add("C21", jobs=[("sweepcases", "", 1040, 5900), ("sweep", "", 5000, 150000)], gen=("Sweep", "SweepGen", "SweepGenThorough"), design=[("Sweep", "SweepQuick", "SweepThorough")], **DK)
add("C22", jobs=[("reopen", "", 4000, 40000)], design=[("Disk", "DiskReopen", "DiskReopenThorough")], **DK)
SC = dict(trace="ScanTrace", design=[("Scan", "ScanQuick", "ScanThorough")])
add("C25", jobs=[("scancases", "", 56, 400), ("scan", "", 2400, 60000), ("scanconc", "", 1500, 30000), ("scanstress", "", 1500, 30000)], gen=("Scan", "ScanGen", "ScanGenThorough"), **SC)
add("C27", jobs=[("query", "", 2400, 60000)], **SC)
add("C23", jobs=[("json", "", 3000, 60000), ("jsonstress", "", 2000, 40000)], trace="LinesTrace", design=[("Lines", "LinesQuick", "LinesThorough")])
add("C24", jobs=[("linkcases", "", 57, 894), ("links", "", 2500, 60000)], trace="ScanTrace", gen=("Links", "LinksGen", "LinksGenThorough"), design=[("Links", "LinksQuick", "LinksThorough")])
add("C26", jobs=[("cdp", "", 4000, 60000), ("cdp", "slow", 240, 3000), ("cdpcases", "", 28, 565)], trace="CdpTrace", gen=("CdpGen", "CdpGen", "CdpGenThorough"), design=[("Cdp", "CdpQuick", "CdpThorough")])
add("C28", jobs=[("match", "", 8000, 150000), ("matchconc", "", 3000, 60000), ("matchcases", "", 784, 3910)], trace="MatchTrace", gen=("Match", "MatchGen", "MatchGenThorough"), design=[("Match", "MatchQuick", "MatchThorough")])
