------------------------------- MODULE CNull --------------------------------
(* What the functions of the C interface are documented to return when the
   object they are given is NULL; "void" ones have no effect.                 *)
LOCAL INSTANCE TLC
NullPointer == {"htp_tx_normalized_uri", "htp_tx_cfg", "htp_tx_get_user_data", "htp_tx_request_line", "htp_tx_request_method", 
    "htp_tx_request_uri", "htp_tx_request_protocol", "htp_tx_parsed_uri", "htp_tx_request_headers", "htp_tx_request_header", 
    "htp_tx_request_header_index", "htp_tx_request_content_type", "htp_tx_request_hostname", "htp_tx_response_line", 
    "htp_tx_response_protocol", "htp_tx_response_status", "htp_tx_response_message", "htp_tx_response_headers", 
    "htp_tx_response_header", "htp_tx_response_header_index", "htp_tx_response_content_type", "htp_tx_data_tx", "htp_tx_data_data", 
    "htp_headers_get", "htp_headers_get_index", "htp_header_name", "htp_header_name_ptr", "htp_header_value", "htp_header_value_ptr", 
    "htp_uri_scheme", "htp_uri_username", "htp_uri_password", "htp_uri_hostname", "htp_uri_port", "htp_uri_path", "htp_uri_query", 
    "htp_uri_fragment", "htp_log_message", "htp_log_file", "htp_conn_next_log", "htp_connp_connection", "htp_connp_user_data", 
    "htp_connp_tx", "htp_connp_get_response_tx", "htp_connp_get_request_tx"}
MinusOne == {"htp_tx_request_headers_size", "htp_tx_request_content_length", "htp_tx_request_port_number", "htp_tx_request_message_len", 
    "htp_tx_request_entity_len", "htp_tx_response_status_number", "htp_tx_response_status_expected_number", 
    "htp_tx_response_headers_size", "htp_tx_response_message_len", "htp_tx_response_entity_len", "htp_tx_response_content_length", 
    "htp_tx_index", "htp_tx_data_len", "htp_headers_size", "htp_header_name_len", "htp_header_value_len", "htp_uri_port_number", 
    "htp_connp_tx_size", "htp_connp_request_data_consumed", "htp_connp_response_data_consumed"}
ErrorValue == {"htp_tx_request_method_number", "htp_tx_request_protocol_number", "htp_tx_request_transfer_coding", 
    "htp_tx_request_content_encoding", "htp_tx_request_auth_type", "htp_tx_response_protocol_number", "htp_tx_request_progress", 
    "htp_tx_response_progress", "htp_log_code", "htp_connp_request_data", "htp_connp_response_data", 
    "htp_config_set_server_personality"}
Zero == {"htp_tx_is_protocol_0_9", "htp_tx_is_http_2_upgrade", "htp_tx_flags", "htp_headers_flags", "htp_header_flags", 
    "htp_conn_request_data_counter", "htp_conn_response_data_counter"}
True == {"htp_tx_data_is_empty"}
NoEffect == {"htp_tx_destroy", "htp_tx_set_user_data", "htp_tx_register_response_body_data", "htp_log_free", "htp_connp_close", 
    "htp_connp_destroy_all", "htp_connp_set_user_data", "htp_connp_open", "htp_connp_request_close", "htp_config_destroy", 
    "htp_config_register_log", "htp_config_register_request_body_data", "htp_config_register_request_complete", 
    "htp_config_register_request_headers", "htp_config_register_request_header_data", "htp_config_register_request_line", 
    "htp_config_register_request_start", "htp_config_register_request_trailer", "htp_config_register_request_trailer_data", 
    "htp_config_register_response_body_data", "htp_config_register_response_complete", "htp_config_register_response_headers", 
    "htp_config_register_response_header_data", "htp_config_register_response_start", "htp_config_register_response_trailer", 
    "htp_config_register_response_trailer_data", "htp_config_register_transaction_complete", 
    "htp_config_set_backslash_convert_slashes", "htp_config_set_bestfit_replacement_byte", "htp_config_set_compression_bomb_limit", 
    "htp_config_set_compression_time_limit", "htp_config_set_convert_lowercase", "htp_config_set_field_limit", 
    "htp_config_set_lzma_memlimit", "htp_config_set_lzma_layers", "htp_config_set_max_tx", "htp_config_set_nul_encoded_terminates", 
    "htp_config_set_nul_raw_terminates", "htp_config_set_parse_request_cookies", "htp_config_set_path_separators_compress", 
    "htp_config_set_plusspace_decode", "htp_config_set_path_separators_decode", "htp_config_set_request_decompression", 
    "htp_config_set_decompression_layer_limit", "htp_config_set_allow_space_uri", "htp_config_set_u_encoding_decode", 
    "htp_config_set_url_encoding_invalid_handling", "htp_config_set_utf8_convert_bestfit", 
    "htp_config_set_double_decode_normalized_query", "htp_config_set_double_decode_normalized_path", 
    "htp_config_set_normalized_uri_include_all", "htp_config_set_tx_auto_destroy", "htp_config_set_flush_incomplete", 
    "htp_config_set_parse_urlencoded"}
NullResult(f) == CASE f \in NullPointer -> "NULL" [] f \in MinusOne -> "-1" [] f \in ErrorValue -> "ERROR"
                   [] f \in Zero -> "0" [] f \in True -> "true" [] f \in NoEffect -> "void"
=============================================================================
