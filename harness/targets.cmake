mc_harness(f01_kvpsync DEPS kvpsync WRAP urandom_bytes)
mc_harness(f03_dns DEPS libdns)
mc_harness(f04_rrl DEPS libdns)
mc_harness(f03_server DEPS libdns duv LINK systemd WRAP xtime)
mc_harness(g01_containers DEPS dstr)
mc_harness(a_mail DEPS libcitm fake_citm LINK fakestream test_utils WRAP time rename remove unlink rmdir mkdir fflush fclose fopen write)
mc_harness(a07_log DEPS imaildir WRAP rename remove unlink rmdir mkdir fflush fclose fopen write fsync)
mc_harness(g02_json DEPS dstr)
mc_harness(g04_text DEPS web dstr WRAP free realloc read write)
mc_harness(d03_fetch DEPS libcitm fake_citm LINK fakestream test_utils WRAP time rename remove unlink rmdir mkdir fflush fclose fopen write)
mc_harness(a09_search DEPS libcitm fake_citm LINK fakestream test_utils WRAP time rename remove unlink rmdir mkdir fflush fclose fopen write)
mc_harness(b01_crypto DEPS crypto dstr)
mc_harness(b02_keydir DEPS libcitm crypto dstr WRAP open rename remove unlink rmdir mkdir fflush fclose fopen write fsync EVP_PKEY_Q_keygen)
mc_harness(c01_streams DEPS http duv web dstr)
mc_harness(c01_passthru DEPS duv dstr WRAP uv_read_start uv_read_stop uv_write uv_shutdown uv_close uv_timer_init uv_timer_start uv_timer_stop)
mc_harness(c02_tls DEPS duvtls duv crypto dstr)
mc_harness(c03_http DEPS http duvtls duv web crypto dstr WRAP duv_connect duv_connect_cancel duv_passthru_init_tcp uv_timer_init uv_timer_start uv_timer_stop uv_close)
mc_harness(d01_imap DEPS imap dstr)
mc_harness(d02_imap DEPS imap dstr)
mc_harness(g03_nonce DEPS api_client http web duvtls duv crypto dstr WRAP rename remove unlink rmdir mkdir fflush fclose fopen write http_sync_req duv_http_req)
mc_harness(e03_status DEPS libcitm duv dstr WRAP uv_pipe_init uv_pipe_chmod duv_pipe_bind_with_lock uv_listen uv_accept uv_read_start uv_read_stop uv_write uv_close uv_pipe_connect)
mc_harness(e02_acme DEPS libcitm acme api_client http web duvtls duv crypto dstr WRAP gen_key_path rename remove unlink rmdir mkdir fflush fclose fopen write)
mc_harness(f02_kvpsend DEPS libkvpsend libsmsql kvpsync web duv dstr LINK systemd WRAP xtime urandom_bytes challenges_first challenges_next challenges_free get_installation_challenge duv_loop_init uv_loop_close duv_run uv_timer_init uv_timer_start uv_timer_stop uv_udp_init uv_udp_open uv_udp_recv_start uv_udp_send uv_pipe_init duv_pipe_bind_with_lock uv_listen uv_accept uv_read_start uv_read_stop uv_write uv_close uv_is_closing getaddrinfo freeaddrinfo)
mc_harness(e01_citm DEPS libcitm crypto duv dstr LINK fakestream test_utils WRAP keypair_load_private_path)
