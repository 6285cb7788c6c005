QUICK_SECS = 15
THOROUGH_SECS = 240
POOL_RENAME = [('coap_mem_%s_%s' % (p, f), 'vf_coap_mem_%s_%s' % (p, f)) for p in ('small', 'medium', 'large') for f in ('alloc', 'free', 'get_len')]
PROXY_RENAME = [(s, 'vf_' + s) for s in ('tls_sock_read', 'tls_sock_write_full', 'tls_sock_write', 'tls_sock_close', 'tls_sock_get_addr_string_', 'sock_strerror', 'thread_block_signals', 'gnutls_record_check_pending', 'coap_client_create', 'coap_client_destroy', 'coap_client_exchange', 'coap_client_exchange_blockwise')]
GNUTLS_RENAME = [('gnutls_' + s, 'vf_gnutls_' + s) for s in ('global_init', 'global_deinit', 'init', 'deinit', 'certificate_allocate_credentials', 'certificate_free_credentials', 'priority_init', 'priority_deinit', 'x509_crt_init', 'x509_crt_deinit', 'dh_params_init', 'dh_params_deinit', 'dh_params_generate2', 'credentials_set', 'priority_set', 'certificate_verify_peers2', 'certificate_get_peers', 'x509_crt_import', 'record_recv')]
STREAM_RENAME = [(s, 'st_' + s) for s in ('socket', 'setsockopt', 'bind', 'listen', 'connect', 'accept', 'accept4', 'fcntl', 'close', 'shutdown', 'select', 'poll', 'getaddrinfo', 'freeaddrinfo', 'gnutls_transport_set_ptr', 'gnutls_transport_set_int2')] + [('fcntl64', 'st_fcntl64')]
TLS = dict(repo=['proxy/common/src/tls_sock.c', 'proxy/common/src/tls.c', 'proxy/common/src/sock.c', 'proxy/common/src/util.c', 'lib/src/coap_log.c', 'lib/src/coap_msg.c', 'lib/src/coap_mem.c'], harness=['common.cc', 'netsim.cc', 'dtls.cc', 'tlssock.cc'], syms=['MEM', 'TIME'], rename=POOL_RENAME + GNUTLS_RENAME + STREAM_RENAME, rename_skip=['coap_mem.c', 'coap_log.c'], libs=['-lgnutls'])
PROG_RENAME = [(s, 'px_' + s) for s in ('main', 'sigaction', 'signal', 'pthread_sigmask', 'pthread_attr_init', 'pthread_attr_setdetachstate', 'pthread_attr_destroy', 'pthread_create', 'pthread_detach', 'sleep', 'usleep', 'gnutls_check_version', 'tls_init', 'tls_deinit', 'tls_server_create', 'tls_server_destroy', 'tls_ssock_open', 'tls_ssock_close', 'tls_ssock_accept', 'tls_sock_close', 'connection_init', 'connection_new', 'connection_delete', 'connection_thread_func', 'printf', 'vprintf', 'fprintf', 'vfprintf', 'puts', 'putchar', 'fputs', 'fputc', 'fwrite', 'fflush')]
SAMPLES = ['sample/%s/%s.c' % x for x in (('reg_server', 'registrar'), ('reg_server', 'reg_server'), ('reg_client', 'reg_client'), ('time_server', 'time_server'), ('time_client', 'time_client'), ('transfer_server', 'transfer_server'), ('transfer_client', 'transfer_client'))] + [('sample/%s/main.c' % d, ['-Dmain=main_' + d], None) for d in ('reg_server', 'reg_client', 'time_server', 'time_client', 'transfer_server', 'transfer_client')]
SAMPLE_INC = ['sample/' + d for d in ('reg_server', 'reg_client', 'time_server', 'time_client', 'transfer_server', 'transfer_client')]
SAMPLE_RENAME = [(s, 'sm_' + s) for s in ('printf', 'vprintf', 'fprintf', 'vfprintf', 'puts', 'putchar', 'fputs', 'fputc', 'fflush', 'fopen', 'fclose', 'fread', 'fwrite', 'fseek', 'ftell', 'coap_mem_all_create', 'coap_mem_all_destroy', 'coap_server_run')]
GROUPS = {
    'msg': dict(repo=['lib/src/coap_msg.c', 'lib/src/coap_mem.c'], harness=['common.cc', 'msg.cc'], syms=['MEM'], rename=POOL_RENAME, rename_skip=['coap_mem.c']),
    'srv': dict(repo=['lib/src/coap_msg.c', 'lib/src/coap_mem.c', 'lib/src/coap_server.c', 'lib/src/coap_log.c'], harness=['common.cc', 'netsim.cc', 'server.cc'], syms=['MEM', 'NET', 'TIME', 'RAND'], rename=POOL_RENAME, rename_skip=['coap_mem.c']),
    'cli': dict(repo=['lib/src/coap_msg.c', 'lib/src/coap_mem.c', 'lib/src/coap_client.c', 'lib/src/coap_log.c'], harness=['common.cc', 'netsim.cc', 'client.cc'], syms=['MEM', 'NET', 'TIME', 'RAND'], rename=POOL_RENAME, rename_skip=['coap_mem.c']),
    'e2e': dict(repo=['lib/src/coap_msg.c', 'lib/src/coap_mem.c', 'lib/src/coap_client.c', 'lib/src/coap_server.c', 'lib/src/coap_log.c'], harness=['common.cc', 'netsim.cc', 'e2e.cc'], syms=['MEM', 'NET', 'TIME', 'RAND'], rename=POOL_RENAME, rename_skip=['coap_mem.c']),
    'blk': dict(repo=['lib/src/coap_msg.c', 'lib/src/coap_mem.c', 'lib/src/coap_client.c', 'lib/src/coap_server.c', 'lib/src/coap_log.c'], harness=['common.cc', 'netsim.cc', 'block.cc'], syms=['MEM', 'NET', 'TIME', 'RAND'], rename=POOL_RENAME, rename_skip=['coap_mem.c']),
    'samp': dict(repo=SAMPLES + ['lib/src/coap_msg.c', 'lib/src/coap_mem.c', 'lib/src/coap_client.c', 'lib/src/coap_server.c', 'lib/src/coap_log.c'], harness=['common.cc', 'netsim.cc', 'samp.cc'], syms=['MEM', 'NET', 'TIME', 'RAND'], rename=POOL_RENAME + SAMPLE_RENAME, rename_skip=['coap_mem.c', 'coap_server.c'], inc=SAMPLE_INC),
    'sampd': dict(repo=SAMPLES + ['lib/src/coap_msg.c', 'lib/src/coap_mem.c', 'lib/src/coap_log.c'], harness=['common.cc', 'netsim.cc', 'samp.cc'], syms=['MEM', 'NET', 'TIME', 'RAND'], rename=POOL_RENAME + SAMPLE_RENAME + [(s, 'sm_' + s) for s in ('coap_client_create', 'coap_client_destroy', 'coap_client_exchange', 'coap_client_exchange_blockwise', 'coap_server_create', 'coap_server_destroy', 'coap_server_trans_handle_blockwise', 'gnutls_check_version')], rename_skip=['coap_mem.c'], inc=SAMPLE_INC, cflags=['-DCOAP_DTLS_EN']),
    'mem': dict(repo=['lib/src/coap_mem.c'], harness=['mem.cc'], syms=['MEM']),
    'thr': dict(repo=['lib/src/coap_mem.c'], harness=['mem.cc'], hflags=['-DTHREADED'], san=['-fsanitize=thread'], cov=False, jobs=4),
    'http': dict(repo=['proxy/common/src/http_msg.c', 'proxy/common/src/data_buf.c', 'proxy/common/src/util.c', 'lib/src/coap_msg.c', 'lib/src/coap_mem.c'], harness=['common.cc', 'http.cc'], syms=['MEM'], rename=POOL_RENAME + [(k, 'vf_' + k) for k in ('fopen', 'fclose', 'fseek', 'ftell', 'fread')], rename_skip=['coap_mem.c']),
    'uri': dict(repo=['proxy/common/src/uri.c', 'lib/src/coap_msg.c', 'lib/src/coap_mem.c'], harness=['common.cc', 'uri.cc'], syms=['MEM'], rename=POOL_RENAME, rename_skip=['coap_mem.c']),
    'conf': dict(repo=['proxy/common/src/config.c', 'proxy/common/src/util.c', 'proxy/http_coap/src/param.c', 'lib/src/coap_log.c', 'lib/src/coap_msg.c', 'lib/src/coap_mem.c'], harness=['common.cc', 'conf.cc'], syms=['MEM'], rename=POOL_RENAME, rename_skip=['coap_mem.c']),
    'cross': dict(repo=['proxy/common/src/cross.c', 'proxy/common/src/http_msg.c', 'proxy/common/src/uri.c', 'proxy/common/src/util.c', 'lib/src/coap_msg.c', 'lib/src/coap_mem.c'], harness=['common.cc', 'cross.cc'], syms=['MEM'], rename=POOL_RENAME, rename_skip=['coap_mem.c']),
    'proxy': dict(repo=['proxy/http_coap/src/connection.c', 'proxy/common/src/cross.c', 'proxy/common/src/http_msg.c', 'proxy/common/src/uri.c', 'proxy/common/src/util.c', 'proxy/common/src/data_buf.c', 'lib/src/coap_msg.c', 'lib/src/coap_mem.c', 'lib/src/coap_log.c'], harness=['common.cc', 'proxy.cc'], syms=['MEM', 'select', 'poll'], rename=POOL_RENAME + PROXY_RENAME, rename_skip=['coap_mem.c'], cflags=['-DCOAP_DTLS_EN', '-DTLS_CLIENT_AUTH', '-DCOAP_PROXY']),
    'dtlsc': dict(repo=['lib/src/coap_client.c', 'lib/src/coap_msg.c', 'lib/src/coap_mem.c', 'lib/src/coap_log.c'], harness=['common.cc', 'netsim.cc', 'dtls.cc', 'dtlscli.cc'], syms=['MEM', 'NET', 'TIME', 'RAND'], rename=POOL_RENAME + GNUTLS_RENAME, rename_skip=['coap_mem.c'], cflags=['-DCOAP_DTLS_EN'], libs=['-lgnutls']),
    'dtlss': dict(repo=['lib/src/coap_server.c', 'lib/src/coap_msg.c', 'lib/src/coap_mem.c', 'lib/src/coap_log.c'], harness=['common.cc', 'netsim.cc', 'dtls.cc', 'dtlssrv.cc'], syms=['MEM', 'NET', 'TIME', 'RAND'], rename=POOL_RENAME + GNUTLS_RENAME, rename_skip=['coap_mem.c'], cflags=['-DCOAP_DTLS_EN', '-DCOAP_CLIENT_AUTH'], libs=['-lgnutls'], share=0.7),
    'dtlsn': dict(repo=['lib/src/coap_server.c', 'lib/src/coap_msg.c', 'lib/src/coap_mem.c', 'lib/src/coap_log.c'], harness=['common.cc', 'netsim.cc', 'dtls.cc', 'dtlssrv.cc'], syms=['MEM', 'NET', 'TIME', 'RAND'], rename=POOL_RENAME + GNUTLS_RENAME, rename_skip=['coap_mem.c'], cflags=['-DCOAP_DTLS_EN', '-DCOAP_IP6'], libs=['-lgnutls'], share=0.3),
    'prog': dict(repo=['proxy/http_coap/src/proxy.c', 'proxy/http_coap/src/listener.c', 'proxy/http_coap/src/param.c', 'proxy/common/src/config.c', 'proxy/common/src/util.c', 'proxy/common/src/thread.c', 'proxy/common/src/sock.c', 'lib/src/coap_log.c', 'lib/src/coap_mem.c'], harness=['prog.cc'], syms=['MEM'], rename=PROG_RENAME, cflags=['-DCOAP_DTLS_EN', '-DTLS_CLIENT_AUTH', '-DCOAP_PROXY']),
    'tlsa': dict(TLS, cflags=['-DTLS_CLIENT_AUTH'], share=0.6),
    'tlsn': dict(TLS, cflags=['-DSOCK_IP6'], share=0.4),
}
GROUPS['conc'] = dict(repo=['proxy/http_coap/src/connection.c', 'proxy/common/src/cross.c', 'proxy/common/src/http_msg.c', 'proxy/common/src/uri.c', 'proxy/common/src/util.c', 'proxy/common/src/data_buf.c', 'proxy/common/src/config.c', 'proxy/common/src/tls.c', 'lib/src/coap_msg.c', 'lib/src/coap_mem.c', 'lib/src/coap_log.c'], harness=['conc.cc'], rename=PROXY_RENAME + [('select', 'vf_select'), ('poll', 'vf_poll')] + [('gnutls_' + s, 'vf_gnutls_' + s) for s in ('certificate_allocate_credentials', 'certificate_free_credentials', 'certificate_set_x509_trust_file', 'certificate_set_x509_key_file', 'dh_params_init', 'dh_params_deinit', 'dh_params_generate2', 'certificate_set_dh_params')], rename_skip=['coap_mem.c'], cflags=['-DCOAP_DTLS_EN', '-DTLS_CLIENT_AUTH', '-DCOAP_PROXY', '-DCONNECTION_STATS'], libs=['-lgnutls'], san=['-fsanitize=thread'], cov=False, jobs=4)
GROUPS['conce'] = dict(repo=['lib/src/coap_client.c', 'lib/src/coap_server.c', 'lib/src/coap_msg.c', 'lib/src/coap_mem.c', 'lib/src/coap_log.c'], harness=['conc.cc'], hflags=['-DEXCHANGES'], rename=[(k, 'vf_' + k) for k in ('select', 'poll', 'send', 'sendto', 'coap_msg_gen_rand_str')], rename_skip=['coap_msg.c'], san=['-fsanitize=thread'], cov=False, jobs=4)
GROUPS['sampv'] = dict(GROUPS['samp'], cflags=['-DCOAP_IP6'])
for k in ('srv', 'cli', 'e2e'):                 # IPv6, and the options a proxy must refuse
    GROUPS[k + 'v'] = dict(GROUPS[k], cflags=['-DCOAP_IP6'] + ([] if k == 'e2e' else ['-DCOAP_PROXY']))
PROPS = {
    'C01': dict(group='msg', level='exploration'),
    'C02': dict(group='msg', level='exploration'),
    'C03': dict(group='msg', level='exploration'),
    'C04': dict(group='msg', level='exploration'),
    'C05': dict(group='msg', level='exploration'),
    'C06': dict(group='mem', level='exploration'),
    'C07': dict(group=['msg', 'srv', 'cli', 'e2e'], level='exploration'),
    'C08': dict(group=['srv', 'srvv'], shares=[0.75, 0.25], level='exploration'),
    'C09': dict(group=['srv', 'srvv'], shares=[0.75, 0.25], level='exploration'),
    'C10': dict(group=['srv', 'srvv'], shares=[0.75, 0.25], level='exploration'),
    'C11': dict(group=['srv', 'srvv'], shares=[0.75, 0.25], level='exploration'),
    'C12': dict(group=['srv', 'srvv'], shares=[0.75, 0.25], level='exploration'),
    'C13': dict(group=['cli', 'cliv'], shares=[0.75, 0.25], level='exploration'),
    'C14': dict(group=['cli', 'cliv'], shares=[0.75, 0.25], level='exploration'),
    'C15': dict(group=['e2e', 'e2ev'], shares=[0.75, 0.25], level='exploration'),
    'C16': dict(group=['e2e', 'e2ev'], shares=[0.75, 0.25], level='exploration'),
    'C17': dict(group='e2e', level='exploration'),
    'C18': dict(group='blk', level='exploration'),
    'C19': dict(group='blk', level='exploration'),
    'C20': dict(group='http', level='exploration'),
    'C21': dict(group='http', level='exploration'),
    'C22': dict(group='uri', level='exploration'),
    'C23': dict(group='cross', level='exploration'),
    'C24': dict(group='cross', level='exploration'),
    'C25': dict(group='proxy', level='exploration'),
    'C26': dict(group='conf', level='exploration'),
    'C27': dict(group='http', level='exploration'),
    'C32': dict(group='e2e', level='exploration'),
    'C30': dict(group=['tlsa', 'tlsn'], level='exploration'),
    'C33': dict(group='prog', level='exploration'),
    'C31': dict(group='thr', level='exploration'),
    'C34': dict(group=['samp', 'sampv', 'sampd'], shares=[0.65, 0.25, 0.1], level='exploration'),
    'C35': dict(group=['conc', 'conce'], shares=[0.6, 0.4], level='exploration'),
    'C28': dict(group='dtlsc', level='exploration'),
    'C29': dict(group=['dtlss', 'dtlsn'], level='exploration'),
}
