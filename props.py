# What run.py builds and runs for each property.
NETKIT = ["mc.cpp", "mcrt.cpp"]
MEMKIT = ["mc.cpp", "mcrt.cpp", "tsanrt.cpp"]
COMM = ["CCommMgr.cpp", "CEvent.cpp", "Utils.cpp"]
NW = ["CNetWorker.cpp", "CEvent.cpp", "Utils.cpp", "CThread.cpp"]
VOL = ["--param", "tsan-distinguish-volatile=1"]
PROPS = {
    "C44": dict(bins=[dict(name="setup", mode="asan", src=["h/setup.cpp"], repo=["Utils.cpp"], kit=["mc.cpp"], ldflags=["-Wl,--wrap=fork,--wrap=exit,--wrap=_exit,--wrap=setsid,--wrap=signal,--wrap=sigaction,--wrap=getrlimit,--wrap=setrlimit,--wrap=getrlimit64,--wrap=setrlimit64,--wrap=prlimit,--wrap=socket,--wrap=bind,--wrap=connect,--wrap=listen,--wrap=send,--wrap=sendto,--wrap=setsockopt,--wrap=close,--wrap=fcntl,--wrap=fcntl64"])]),
    "C45": dict(bins=[dict(name="helpers", mode="asan", src=["h/helpers.cpp"], repo=["Utils.cpp"], kit=NETKIT)]),
    "C01": dict(bins=[dict(name="tcp_in", mode="asan", src=["h/tcp_srv.cpp"], repo=COMM, kit=NETKIT, cflags=["-fno-access-control", "-DSPACES_IN"])]),
    "C02": dict(bins=[dict(name="tcp_out", mode="asan", src=["h/tcp_srv.cpp"], repo=COMM, kit=NETKIT, cflags=["-fno-access-control", "-DSPACES_OUT"])]),
    "C03": dict(bins=[dict(name="tcp_life", mode="asan", src=["h/tcp_srv.cpp"], repo=COMM, kit=NETKIT, cflags=["-fno-access-control", "-DSPACES_LIFE"])]),
    "C43": dict(bins=[dict(name="tcp_sig", mode="asan", src=["h/tcp_srv.cpp"], repo=COMM, kit=NETKIT, cflags=["-fno-access-control", "-DSPACES_SIG"])]),
    "C05": dict(bins=[dict(name="conn_comm", mode="asan", src=["h/tcp_conn.cpp"], repo=COMM, kit=NETKIT, cflags=["-fno-access-control"]), dict(name="conn_nw", mode="asan", src=["h/tcp_conn.cpp"], repo=NW, kit=NETKIT, cflags=["-DUSE_NW"])]),
    "C07": dict(bins=[dict(name="nw_in", mode="asan", src=["h/tcp_srv.cpp"], repo=NW, kit=NETKIT, cflags=["-fno-access-control", "-DUSE_NW", "-DSPACES_IN"])]),
    "C41": dict(bins=[dict(name="nw_out", mode="asan", src=["h/tcp_srv.cpp"], repo=NW, kit=NETKIT, cflags=["-fno-access-control", "-DUSE_NW", "-DSPACES_OUT"])]),
    "C42": dict(bins=[dict(name="nw_life", mode="asan", src=["h/tcp_srv.cpp"], repo=NW, kit=NETKIT, cflags=["-fno-access-control", "-DUSE_NW", "-DSPACES_LIFE"])]),
    "C46": dict(bins=[dict(name="tm_comm", mode="asan", src=["h/tm.cpp"], repo=COMM, kit=NETKIT, cflags=["-fno-access-control"]), dict(name="tm_nw", mode="asan", src=["h/tm.cpp"], repo=NW, kit=NETKIT, cflags=["-fno-access-control", "-DUSE_NW"])]),
    "C09": dict(bins=[dict(name="event_timer", mode="asan", src=["h/event.cpp"], repo=["CEvent.cpp"], kit=NETKIT, cflags=["-DSP_TIMER"])]),
    "C10": dict(bins=[dict(name="event_msg", mode="mem", src=["h/event.cpp"], repo=["CEvent.cpp"], kit=MEMKIT, cflags=["-DSP_MSG"])]),
    "C11": dict(bins=[dict(name="event_fd", mode="asan", src=["h/event.cpp"], repo=["CEvent.cpp"], kit=NETKIT, cflags=["-DSP_FD"])]),
    "C18": dict(bins=[dict(name="lru", mode="asan", src=["h/lru.cpp"], repo=[])]),
    "C04": dict(bins=[dict(name="filter", mode="asan", src=["h/filter.cpp"], repo=[])]),
    "C40": dict(bins=[dict(name="mysql", mode="asan", src=["h/mysql.cpp"], repo=["CMysql.cpp"], cflags=["-DHAVE_MYSQL_H=1", "-Ih/mysql"])]),
    "C35": dict(bins=[dict(name="sockbuf", mode="asan", src=["h/sockbuf.cpp"], repo=[])]),
    "C12": dict(bins=[dict(name="cq_seq", mode="asan", src=["h/cqueue.cpp"], repo=[]), dict(name="cq_conc", mode="mem", src=["h/cqueue.cpp"], repo=[], kit=MEMKIT, cflags=["-DSP_CONC"] + VOL)]),
    "C13": dict(bins=[dict(name="bqueue", mode="mem", src=["h/bqueue.cpp"], repo=[], kit=MEMKIT)]),
    "C14": dict(bins=[dict(name="task", mode="mem", src=["h/task.cpp"], repo=["CTask.cpp", "CThread.cpp"], kit=MEMKIT, cflags=VOL)]),
    "C36": dict(bins=[dict(name="locks", mode="mem", src=["h/locks.cpp"], repo=[], kit=MEMKIT)]),
    "C39": dict(bins=[dict(name="thread", mode="mem", src=["h/thread.cpp"], repo=["CThread.cpp"], kit=MEMKIT, cflags=VOL + ["-fno-access-control"])]),
    "C16": dict(bins=[dict(name="bufq", mode="asan", src=["h/bufq.cpp"], repo=[], cflags=["-fno-strict-aliasing"])]),
    "C17": dict(bins=[dict(name="bufq_shared", mode="mem", src=["h/bufq.cpp"], repo=[], kit=MEMKIT, cflags=["-DSP_CONC", "-include", "memhook.h"])]),
    "C20": dict(bins=[dict(name="bitmap", mode="asan", src=["h/shm.cpp"], repo=[], cflags=["-DSP_BITMAP"])]),
    "C21": dict(bins=[dict(name="shm", mode="asan", src=["h/shm.cpp"], repo=[])]),
    "C22": dict(bins=[dict(name="any_bin", mode="asan", src=["h/anyval.cpp"], repo=[], cflags=["-DSP_BIN"])]),
    "C23": dict(bins=[dict(name="any_json", mode="asan", src=["h/anyval.cpp"], repo=[], cflags=["-DSP_JSON"])]),
    "C24": dict(bins=[dict(name="any_robust", mode="asan", src=["h/anyval.cpp"], repo=[], cflags=["-DSP_ROBUST"])]),
    "C25": dict(bins=[dict(name="any_ops", mode="asan", src=["h/anyval.cpp"], repo=[], cflags=["-DSP_OPS"])]),
    "C26": dict(bins=[dict(name="any_pkg", mode="asan", src=["h/pkg.cpp"], repo=[], cflags=["-DSP_ANY"])]),
    "C27": dict(bins=[dict(name="package", mode="asan", src=["h/pkg.cpp"], repo=[])]),
    "C28": dict(bins=[dict(name="http_req", mode="asan", src=["h/http.cpp"], repo=["CHttpReader.cpp", "CHttpWriter.cpp", "Utils.cpp"], cflags=["-DSP_REQ"])]),
    "C29": dict(bins=[dict(name="http_rsp", mode="asan", src=["h/http.cpp"], repo=["CHttpReader.cpp", "CHttpWriter.cpp", "Utils.cpp"], cflags=["-DSP_RSP"])]),
    "C30": dict(bins=[dict(name="url", mode="asan", src=["h/text.cpp"], repo=["Utils.cpp", "CConfig.cpp"], cflags=["-DSP_URL"])]),
    "C31": dict(bins=[dict(name="config", mode="asan", src=["h/text.cpp"], repo=["Utils.cpp", "CConfig.cpp"], cflags=["-DSP_CFG"])]),
    "C32": dict(bins=[dict(name="strings", mode="asan", src=["h/text.cpp"], repo=["Utils.cpp", "CConfig.cpp"], cflags=["-DSP_STR"])]),
    "C33": dict(bins=[dict(name="alog", mode="mem", src=["h/alog.cpp"], repo=["CAsyncLog.cpp", "CLog.cpp", "CThread.cpp", "Utils.cpp"], kit=MEMKIT, cflags=VOL + ["-include", "memhook.h"]), dict(name="alog_seq", mode="asan", src=["h/alog.cpp"], repo=["CAsyncLog.cpp", "CLog.cpp", "CThread.cpp", "Utils.cpp"], kit=NETKIT, cflags=["-DMC_SEQ"])]),
    "C34": dict(bins=[dict(name="flog", mode="mem", src=["h/alog.cpp"], repo=["CFileLog.cpp", "CAsyncLog.cpp", "CLog.cpp", "CThread.cpp", "Utils.cpp"], kit=MEMKIT, cflags=VOL + ["-include", "memhook.h", "-DSP_FILE"])]),
    "C37": dict(bins=[dict(name="tcpc", mode="asan", src=["h/connector.cpp"], repo=["CTcpConnector.cpp", "CUdpConnector.cpp"], kit=NETKIT)]),
    "C38": dict(bins=[dict(name="udpc", mode="asan", src=["h/connector.cpp"], repo=["CTcpConnector.cpp", "CUdpConnector.cpp"], kit=NETKIT, cflags=["-DSP_UDP"])]),
    "C06": dict(bins=[dict(name="udp", mode="asan", src=["h/udp.cpp"], repo=COMM, kit=NETKIT, cflags=["-fno-access-control"])]),
    "C15": dict(bins=[dict(name="pool_" + n + m, mode=mm, src=["h/pool.cpp"], repo=COMM + ["CTask.cpp", "CThread.cpp", "CHttpReader.cpp", "CHttpWriter.cpp"], kit=k, cflags=["-fno-access-control"] + fl + d) for (m, mm, k, fl) in (("", "asan", NETKIT, []), ("_races", "mem", MEMKIT, VOL)) for (n, d) in (("raw", []), ("any", ["-DP_ANY"]), ("http", ["-DP_HTTP"]))]),
    "C08": dict(bins=[dict(name="nwmgr" + m, mode=mm, src=["h/nwmgr.cpp"], repo=NW, kit=k, cflags=["-fno-access-control"] + fl) for (m, mm, k, fl) in (("", "asan", NETKIT, []), ("_races", "mem", MEMKIT, VOL))]),
    "C19": dict(bins=[dict(name="lruconc", mode="mem", src=["h/lruconc.cpp"], repo=["Utils.cpp"], kit=MEMKIT)]),
}
