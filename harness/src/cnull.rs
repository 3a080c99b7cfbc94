//! Every function of the C interface, given NULL objects.
use htp::c_api::{config::*, connection::*, connection_parser::*, header::*, log::*, transaction::*, uri::*};
use htp::config::{HtpServerPersonality, HtpUrlEncodingHandling};
use htp::connection_parser::ConnectionParser;
use htp::log::Log;
use htp::transaction::{Data, Transaction};
use htp::HtpStatus;
use std::ptr::{null, null_mut};

unsafe extern "C" fn cb_tx(_: *const ConnectionParser, _: *mut Transaction) -> HtpStatus { HtpStatus::OK }
unsafe extern "C" fn cb_data(_: *const ConnectionParser, _: *mut Data) -> HtpStatus { HtpStatus::OK }
unsafe extern "C" fn cb_log(_: *mut Log) -> HtpStatus { HtpStatus::OK }

pub unsafe fn call(name: &str) -> String {
    match name {
        "htp_tx_destroy" => { htp_tx_destroy(null_mut(), null()); "void".to_string() },
        "htp_tx_normalized_uri" => (if htp_tx_normalized_uri(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_cfg" => (if htp_tx_cfg(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_get_user_data" => (if htp_tx_get_user_data(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_set_user_data" => { htp_tx_set_user_data(null_mut(), null_mut()); "void".to_string() },
        "htp_tx_request_line" => (if htp_tx_request_line(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_request_method" => (if htp_tx_request_method(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_request_method_number" => format!("{:?}", htp_tx_request_method_number(null())),
        "htp_tx_request_uri" => (if htp_tx_request_uri(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_request_protocol" => (if htp_tx_request_protocol(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_request_protocol_number" => format!("{:?}", htp_tx_request_protocol_number(null())),
        "htp_tx_is_protocol_0_9" => htp_tx_is_protocol_0_9(null()).to_string(),
        "htp_tx_is_http_2_upgrade" => htp_tx_is_http_2_upgrade(null()).to_string(),
        "htp_tx_parsed_uri" => (if htp_tx_parsed_uri(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_request_headers" => (if htp_tx_request_headers(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_request_headers_size" => htp_tx_request_headers_size(null()).to_string(),
        "htp_tx_request_header" => (if htp_tx_request_header(null(), null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_request_header_index" => (if htp_tx_request_header_index(null(), 1).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_request_transfer_coding" => format!("{:?}", htp_tx_request_transfer_coding(null())),
        "htp_tx_request_content_encoding" => format!("{:?}", htp_tx_request_content_encoding(null())),
        "htp_tx_request_content_type" => (if htp_tx_request_content_type(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_request_content_length" => htp_tx_request_content_length(null()).to_string(),
        "htp_tx_request_auth_type" => format!("{:?}", htp_tx_request_auth_type(null())),
        "htp_tx_request_hostname" => (if htp_tx_request_hostname(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_request_port_number" => htp_tx_request_port_number(null()).to_string(),
        "htp_tx_request_message_len" => htp_tx_request_message_len(null()).to_string(),
        "htp_tx_request_entity_len" => htp_tx_request_entity_len(null()).to_string(),
        "htp_tx_response_line" => (if htp_tx_response_line(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_response_protocol" => (if htp_tx_response_protocol(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_response_protocol_number" => format!("{:?}", htp_tx_response_protocol_number(null())),
        "htp_tx_response_status" => (if htp_tx_response_status(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_response_status_number" => htp_tx_response_status_number(null()).to_string(),
        "htp_tx_response_status_expected_number" => htp_tx_response_status_expected_number(null()).to_string(),
        "htp_tx_response_message" => (if htp_tx_response_message(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_response_headers" => (if htp_tx_response_headers(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_response_headers_size" => htp_tx_response_headers_size(null()).to_string(),
        "htp_tx_response_header" => (if htp_tx_response_header(null(), null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_response_header_index" => (if htp_tx_response_header_index(null(), 1).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_response_message_len" => htp_tx_response_message_len(null()).to_string(),
        "htp_tx_response_entity_len" => htp_tx_response_entity_len(null()).to_string(),
        "htp_tx_response_content_length" => htp_tx_response_content_length(null()).to_string(),
        "htp_tx_response_content_type" => (if htp_tx_response_content_type(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_flags" => htp_tx_flags(null()).to_string(),
        "htp_tx_request_progress" => format!("{:?}", htp_tx_request_progress(null())),
        "htp_tx_response_progress" => format!("{:?}", htp_tx_response_progress(null())),
        "htp_tx_index" => htp_tx_index(null()).to_string(),
        "htp_tx_register_response_body_data" => { htp_tx_register_response_body_data(null_mut(), cb_data); "void".to_string() },
        "htp_tx_data_tx" => (if htp_tx_data_tx(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_data_data" => (if htp_tx_data_data(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_tx_data_len" => htp_tx_data_len(null()).to_string(),
        "htp_tx_data_is_empty" => htp_tx_data_is_empty(null()).to_string(),
        "htp_headers_get" => (if htp_headers_get(null(), null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_headers_flags" => htp_headers_flags(null()).to_string(),
        "htp_headers_get_index" => (if htp_headers_get_index(null(), 1).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_headers_size" => htp_headers_size(null()).to_string(),
        "htp_header_name" => (if htp_header_name(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_header_name_ptr" => (if htp_header_name_ptr(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_header_flags" => htp_header_flags(null()).to_string(),
        "htp_header_name_len" => htp_header_name_len(null()).to_string(),
        "htp_header_value" => (if htp_header_value(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_header_value_ptr" => (if htp_header_value_ptr(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_header_value_len" => htp_header_value_len(null()).to_string(),
        "htp_uri_scheme" => (if htp_uri_scheme(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_uri_username" => (if htp_uri_username(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_uri_password" => (if htp_uri_password(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_uri_hostname" => (if htp_uri_hostname(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_uri_port" => (if htp_uri_port(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_uri_port_number" => htp_uri_port_number(null()).to_string(),
        "htp_uri_path" => (if htp_uri_path(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_uri_query" => (if htp_uri_query(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_uri_fragment" => (if htp_uri_fragment(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_log_message" => (if htp_log_message(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_log_file" => (if htp_log_file(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_log_code" => format!("{:?}", htp_log_code(null())),
        "htp_log_free" => { htp_log_free(null_mut()); "void".to_string() },
        "htp_conn_request_data_counter" => htp_conn_request_data_counter(null()).to_string(),
        "htp_conn_response_data_counter" => htp_conn_response_data_counter(null()).to_string(),
        "htp_conn_next_log" => (if htp_conn_next_log(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_connp_close" => { htp_connp_close(null_mut(), null()); "void".to_string() },
        "htp_connp_destroy_all" => { htp_connp_destroy_all(null_mut()); "void".to_string() },
        "htp_connp_connection" => (if htp_connp_connection(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_connp_user_data" => (if htp_connp_user_data(null()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_connp_set_user_data" => { htp_connp_set_user_data(null_mut(), null_mut()); "void".to_string() },
        "htp_connp_open" => { htp_connp_open(null_mut(), null(), 1, null(), 1, null()); "void".to_string() },
        "htp_connp_request_close" => { htp_connp_request_close(null_mut(), null()); "void".to_string() },
        "htp_connp_request_data" => format!("{:?}", htp_connp_request_data(null_mut(), null(), null(), 1)),
        "htp_connp_response_data" => format!("{:?}", htp_connp_response_data(null_mut(), null(), null(), 1)),
        "htp_connp_tx_size" => htp_connp_tx_size(null()).to_string(),
        "htp_connp_tx" => (if htp_connp_tx(null_mut(), 1).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_connp_get_response_tx" => (if htp_connp_get_response_tx(null_mut()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_connp_get_request_tx" => (if htp_connp_get_request_tx(null_mut()).is_null() { "NULL" } else { "not NULL" }).to_string(),
        "htp_connp_request_data_consumed" => htp_connp_request_data_consumed(null()).to_string(),
        "htp_connp_response_data_consumed" => htp_connp_response_data_consumed(null()).to_string(),
        "htp_config_destroy" => { htp_config_destroy(null_mut()); "void".to_string() },
        "htp_config_register_log" => { htp_config_register_log(null_mut(), cb_log); "void".to_string() },
        "htp_config_register_request_body_data" => { htp_config_register_request_body_data(null_mut(), cb_data); "void".to_string() },
        "htp_config_register_request_complete" => { htp_config_register_request_complete(null_mut(), cb_tx); "void".to_string() },
        "htp_config_register_request_headers" => { htp_config_register_request_headers(null_mut(), cb_tx); "void".to_string() },
        "htp_config_register_request_header_data" => { htp_config_register_request_header_data(null_mut(), cb_data); "void".to_string() },
        "htp_config_register_request_line" => { htp_config_register_request_line(null_mut(), cb_tx); "void".to_string() },
        "htp_config_register_request_start" => { htp_config_register_request_start(null_mut(), cb_tx); "void".to_string() },
        "htp_config_register_request_trailer" => { htp_config_register_request_trailer(null_mut(), cb_tx); "void".to_string() },
        "htp_config_register_request_trailer_data" => { htp_config_register_request_trailer_data(null_mut(), cb_data); "void".to_string() },
        "htp_config_register_response_body_data" => { htp_config_register_response_body_data(null_mut(), cb_data); "void".to_string() },
        "htp_config_register_response_complete" => { htp_config_register_response_complete(null_mut(), cb_tx); "void".to_string() },
        "htp_config_register_response_headers" => { htp_config_register_response_headers(null_mut(), cb_tx); "void".to_string() },
        "htp_config_register_response_header_data" => { htp_config_register_response_header_data(null_mut(), cb_data); "void".to_string() },
        "htp_config_register_response_start" => { htp_config_register_response_start(null_mut(), cb_tx); "void".to_string() },
        "htp_config_register_response_trailer" => { htp_config_register_response_trailer(null_mut(), cb_tx); "void".to_string() },
        "htp_config_register_response_trailer_data" => { htp_config_register_response_trailer_data(null_mut(), cb_data); "void".to_string() },
        "htp_config_register_transaction_complete" => { htp_config_register_transaction_complete(null_mut(), cb_tx); "void".to_string() },
        "htp_config_set_backslash_convert_slashes" => { htp_config_set_backslash_convert_slashes(null_mut(), 1); "void".to_string() },
        "htp_config_set_bestfit_replacement_byte" => { htp_config_set_bestfit_replacement_byte(null_mut(), 1); "void".to_string() },
        "htp_config_set_compression_bomb_limit" => { htp_config_set_compression_bomb_limit(null_mut(), 1); "void".to_string() },
        "htp_config_set_compression_time_limit" => { htp_config_set_compression_time_limit(null_mut(), 1); "void".to_string() },
        "htp_config_set_convert_lowercase" => { htp_config_set_convert_lowercase(null_mut(), 1); "void".to_string() },
        "htp_config_set_field_limit" => { htp_config_set_field_limit(null_mut(), 1); "void".to_string() },
        "htp_config_set_lzma_memlimit" => { htp_config_set_lzma_memlimit(null_mut(), 1); "void".to_string() },
        "htp_config_set_lzma_layers" => { htp_config_set_lzma_layers(null_mut(), 1); "void".to_string() },
        "htp_config_set_max_tx" => { htp_config_set_max_tx(null_mut(), 1); "void".to_string() },
        "htp_config_set_nul_encoded_terminates" => { htp_config_set_nul_encoded_terminates(null_mut(), 1); "void".to_string() },
        "htp_config_set_nul_raw_terminates" => { htp_config_set_nul_raw_terminates(null_mut(), 1); "void".to_string() },
        "htp_config_set_parse_request_cookies" => { htp_config_set_parse_request_cookies(null_mut(), 1); "void".to_string() },
        "htp_config_set_path_separators_compress" => { htp_config_set_path_separators_compress(null_mut(), 1); "void".to_string() },
        "htp_config_set_plusspace_decode" => { htp_config_set_plusspace_decode(null_mut(), 1); "void".to_string() },
        "htp_config_set_path_separators_decode" => { htp_config_set_path_separators_decode(null_mut(), 1); "void".to_string() },
        "htp_config_set_request_decompression" => { htp_config_set_request_decompression(null_mut(), 1); "void".to_string() },
        "htp_config_set_decompression_layer_limit" => { htp_config_set_decompression_layer_limit(null_mut(), 1); "void".to_string() },
        "htp_config_set_allow_space_uri" => { htp_config_set_allow_space_uri(null_mut(), true); "void".to_string() },
        "htp_config_set_server_personality" => format!("{:?}", htp_config_set_server_personality(null_mut(), HtpServerPersonality::IDS)),
        "htp_config_set_u_encoding_decode" => { htp_config_set_u_encoding_decode(null_mut(), 1); "void".to_string() },
        "htp_config_set_url_encoding_invalid_handling" => { htp_config_set_url_encoding_invalid_handling(null_mut(), HtpUrlEncodingHandling::REMOVE_PERCENT); "void".to_string() },
        "htp_config_set_utf8_convert_bestfit" => { htp_config_set_utf8_convert_bestfit(null_mut(), 1); "void".to_string() },
        "htp_config_set_double_decode_normalized_query" => { htp_config_set_double_decode_normalized_query(null_mut(), true); "void".to_string() },
        "htp_config_set_double_decode_normalized_path" => { htp_config_set_double_decode_normalized_path(null_mut(), true); "void".to_string() },
        "htp_config_set_normalized_uri_include_all" => { htp_config_set_normalized_uri_include_all(null_mut(), true); "void".to_string() },
        "htp_config_set_tx_auto_destroy" => { htp_config_set_tx_auto_destroy(null_mut(), 1); "void".to_string() },
        "htp_config_set_flush_incomplete" => { htp_config_set_flush_incomplete(null_mut(), 1); "void".to_string() },
        "htp_config_set_parse_urlencoded" => { htp_config_set_parse_urlencoded(null_mut(), 1); "void".to_string() },
        _ => panic!("no such function"),
    }
}
