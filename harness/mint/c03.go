package mint

// C03: accepted encodings are canonical.

// VF_C03_client_hello
//
//vf:bounds byte strings of 0..50 (thorough 0..60) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_client_hello() { vfCanonical(vfKClientHello, 0, vfParam("max", 50, 60)) }

// VF_C03_client_hello_dtls
//
//vf:bounds byte strings of 0..51 (thorough 0..61) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_client_hello_dtls() { vfCanonical(vfKClientHelloDTLS, 0, vfParam("max", 51, 61)) }

// VF_C03_server_hello
//
//vf:bounds byte strings of 0..50 (thorough 0..60) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_server_hello() { vfCanonical(vfKServerHello, 0, vfParam("max", 50, 60)) }

// VF_C03_encrypted_extensions
//
//vf:bounds byte strings of 0..12 (thorough 0..22) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_encrypted_extensions() { vfCanonical(vfKEncryptedExtensions, 0, vfParam("max", 12, 22)) }

// VF_C03_certificate
//
//vf:bounds byte strings of 0..16 (thorough 0..22) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_certificate() { vfCanonical(vfKCertificate, 0, vfParam("max", 16, 22)) }

// VF_C03_certificate_verify
//
//vf:bounds byte strings of 0..8 (thorough 0..12) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_certificate_verify() { vfCanonical(vfKCertificateVerify, 0, vfParam("max", 8, 12)) }

// VF_C03_certificate_request
//
//vf:bounds byte strings of 0..12 (thorough 0..22) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_certificate_request() { vfCanonical(vfKCertificateRequest, 0, vfParam("max", 12, 22)) }

// VF_C03_new_session_ticket
//
//vf:bounds byte strings of 0..21 (thorough 0..26) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_new_session_ticket() { vfCanonical(vfKNewSessionTicket, 0, vfParam("max", 21, 26)) }

// VF_C03_key_update
//
//vf:bounds byte strings of 0..3 (thorough 0..7) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_key_update() { vfCanonical(vfKKeyUpdate, 0, vfParam("max", 3, 7)) }

// VF_C03_finished
//
//vf:bounds byte strings of 0..34 (thorough 0..44) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_finished() { vfCanonical(vfKFinished, 0, vfParam("max", 34, 44)) }

// VF_C03_end_of_early_data
//
//vf:bounds byte strings of 0..2 (thorough 0..6) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_end_of_early_data() { vfCanonical(vfKEndOfEarlyData, 0, vfParam("max", 2, 6)) }

// VF_C03_extension
//
//vf:bounds byte strings of 0..8 (thorough 0..12) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_extension() { vfCanonical(vfKExtension, 0, vfParam("max", 8, 12)) }

// VF_C03_extension_list
//
//vf:bounds byte strings of 0..14 (thorough 0..20) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_extension_list() { vfCanonical(vfKExtensionList, 0, vfParam("max", 14, 20)) }

// VF_C03_server_name
//
//vf:bounds byte strings of 0..14 (thorough 0..24) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_server_name() { vfCanonical(vfKServerName, 0, vfParam("max", 14, 24)) }

// VF_C03_key_share_client
//
//vf:bounds byte strings of 0..40 (thorough 0..44) bytes, every byte arbitrary; 3 arbitrary bytes after the message; beyond 20 bytes the first share has at least 20 bytes
//vf:reach accepted
func VF_C03_key_share_client() { vfCanonical(vfKKeyShareClient, 0, vfParam("max", 40, 44)) }

// VF_C03_key_share_server
//
//vf:bounds byte strings of 0..37 (thorough 0..70) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_key_share_server() { vfCanonical(vfKKeyShareServer, 0, vfParam("max", 37, 70)) }

// VF_C03_key_share_retry
//
//vf:bounds byte strings of 0..4 (thorough 0..8) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_key_share_retry() { vfCanonical(vfKKeyShareRetry, 0, vfParam("max", 4, 8)) }

// VF_C03_groups
//
//vf:bounds byte strings of 0..10 (thorough 0..20) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_groups() { vfCanonical(vfKGroups, 0, vfParam("max", 10, 20)) }

// VF_C03_signature_algorithms
//
//vf:bounds byte strings of 0..10 (thorough 0..20) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_signature_algorithms() { vfCanonical(vfKSignatureAlgorithms, 0, vfParam("max", 10, 20)) }

// VF_C03_psk_client
//
//vf:bounds byte strings of 0..46 (thorough 0..50) bytes, every byte arbitrary; 3 arbitrary bytes after the message; beyond 20 bytes the identities take at most 14 bytes
//vf:reach accepted
func VF_C03_psk_client() { vfCanonical(vfKPSKClient, 0, vfParam("max", 46, 50)) }

// VF_C03_psk_server
//
//vf:bounds byte strings of 0..4 (thorough 0..8) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_psk_server() { vfCanonical(vfKPSKServer, 0, vfParam("max", 4, 8)) }

// VF_C03_psk_modes
//
//vf:bounds byte strings of 0..7 (thorough 0..11) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_psk_modes() { vfCanonical(vfKPSKModes, 0, vfParam("max", 7, 11)) }

// VF_C03_early_data
//
//vf:bounds byte strings of 0..2 (thorough 0..6) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_early_data() { vfCanonical(vfKEarlyData, 0, vfParam("max", 2, 6)) }

// VF_C03_ticket_early_data
//
//vf:bounds byte strings of 0..6 (thorough 0..10) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_ticket_early_data() { vfCanonical(vfKTicketEarlyData, 0, vfParam("max", 6, 10)) }

// VF_C03_alpn
//
//vf:bounds byte strings of 0..12 (thorough 0..22) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_alpn() { vfCanonical(vfKALPN, 0, vfParam("max", 12, 22)) }

// VF_C03_versions_client
//
//vf:bounds byte strings of 0..10 (thorough 0..20) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_versions_client() { vfCanonical(vfKVersionsClient, 0, vfParam("max", 10, 20)) }

// VF_C03_versions_server
//
//vf:bounds byte strings of 0..4 (thorough 0..8) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_versions_server() { vfCanonical(vfKVersionsServer, 0, vfParam("max", 4, 8)) }

// VF_C03_versions_retry
//
//vf:bounds byte strings of 0..4 (thorough 0..8) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_versions_retry() { vfCanonical(vfKVersionsRetry, 0, vfParam("max", 4, 8)) }

// VF_C03_cookie
//
//vf:bounds byte strings of 0..8 (thorough 0..12) bytes, every byte arbitrary; 3 arbitrary bytes after the message
//vf:reach accepted
func VF_C03_cookie() { vfCanonical(vfKCookie, 0, vfParam("max", 8, 12)) }
