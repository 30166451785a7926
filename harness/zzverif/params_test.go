package zzverif

// The metadata parameters the library knows, per entity type, with the Go field
// holding them. Written down once from the specifications and the documented
// structs; not derived from the code under test at run time.

type paramInfo struct {
	Name  string
	Field string
	Kind  string // s string, l list, b bool, i int, j jwks, m map
	Req   bool   // encoded even when empty
}

var knownParams = map[string][]paramInfo{
	"openid_provider": {
		{"issuer", "Issuer", "s", true},
		{"authorization_endpoint", "AuthorizationEndpoint", "s", true},
		{"token_endpoint", "TokenEndpoint", "s", true},
		{"userinfo_endpoint", "UserinfoEndpoint", "s", false},
		{"registration_endpoint", "RegistrationEndpoint", "s", false},
		{"scopes_supported", "ScopesSupported", "l", false},
		{"response_types_supported", "ResponseTypesSupported", "l", true},
		{"response_modes_supported", "ResponseModesSupported", "l", false},
		{"grant_types_supported", "GrantTypesSupported", "l", false},
		{"acr_values_supported", "ACRValuesSupported", "l", false},
		{"subject_types_supported", "SubjectTypesSupported", "l", true},
		{"id_token_signed_response_alg_values_supported", "IDTokenSignedResponseAlgValuesSupported", "l", false},
		{"id_token_encrypted_response_alg_values_supported", "IDTokenEncryptedResponseAlgValuesSupported", "l", false},
		{"id_token_encrypted_response_enc_values_supported", "IDTokenEncryptedResponseEncValuesSupported", "l", false},
		{"userinfo_signed_response_alg_values_supported", "UserinfoSignedResponseAlgValuesSupported", "l", false},
		{"userinfo_encrypted_response_alg_values_supported", "UserinfoEncryptedResponseAlgValuesSupported", "l", false},
		{"userinfo_encrypted_response_enc_values_supported", "UserinfoEncryptedResponseEncValuesSupported", "l", false},
		{"request_signed_response_alg_values_supported", "RequestSignedResponseAlgValuesSupported", "l", false},
		{"request_encrypted_response_alg_values_supported", "RequestEncryptedResponseAlgValuesSupported", "l", false},
		{"request_encrypted_response_enc_values_supported", "RequestEncryptedResponseEncValuesSupported", "l", false},
		{"token_endpoint_auth_methods_supported", "TokenEndpointAuthMethodsSupported", "l", false},
		{"token_endpoint_auth_signing_alg_values_supported", "TokenEndpointAuthSigningAlgValuesSupported", "l", false},
		{"display_values_supported", "DisplayValuesSupported", "l", false},
		{"claims_supported", "ClaimsSupported", "l", false},
		{"service_documentation", "ServiceDocumentation", "s", false},
		{"claims_locales_supported", "ClaimsLocalesSupported", "l", false},
		{"ui_locales_supported", "UILocalesSupported", "l", false},
		{"claims_parameter_supported", "ClaimsParameterSupported", "b", false},
		{"request_parameter_supported", "RequestParameterSupported", "b", false},
		{"request_uri_parameter_supported", "RequestURIParameterSupported", "b", false},
		{"require_request_uri_registration", "RequireRequestURIRegistration", "b", false},
		{"op_policy_uri", "OPPolicyURI", "s", false},
		{"op_tos_uri", "OPTOSURI", "s", false},
		{"revocation_endpoint", "RevocationEndpoint", "s", false},
		{"revocation_endpoint_auth_methods_supported", "RevocationEndpointAuthMethodsSupported", "l", false},
		{"revocation_endpoint_auth_signing_alg_values_supported", "RevocationEndpointAuthSigningAlgValuesSupported", "l", false},
		{"introspection_endpoint", "IntrospectionEndpoint", "s", false},
		{"introspection_endpoint_auth_methods_supported", "IntrospectionEndpointAuthMethodsSupported", "l", false},
		{"introspection_endpoint_auth_signing_alg_values_supported", "IntrospectionEndpointAuthSigningAlgValuesSupported", "l", false},
		{"introspection_signing_alg_values_supported", "IntrospectionSigningAlgValuesSupported", "l", false},
		{"introspection_encryption_alg_values_supported", "IntrospectionEncryptionAlgValuesSupported", "l", false},
		{"introspection_encryption_enc_values_supported", "IntrospectionEncryptionEncValuesSupported", "l", false},
		{"code_challenge_methods_supported", "CodeChallengeMethodsSupported", "l", false},
		{"signed_metadata", "SignedMetadata", "s", false},
		{"device_authorization_endpoint", "DeviceAuthorizationEndpoint", "s", false},
		{"tls_client_certificate_bound_access_tokens", "TLSClientCertificateBoundAccessTokens", "b", false},
		{"mtls_endpoint_aliases", "MTLSEndpointAliases", "m", false},
		{"nfv_token_signing_alg_values_supported", "NFVTokenSigningAlgValuesSupported", "l", false},
		{"nfv_token_encryption_alg_values_supported", "NFVTokenEncryptionAlgValuesSupported", "l", false},
		{"nfv_token_encryption_enc_values_supported", "NFVTokenEncryptionEncValuesSupported", "l", false},
		{"require_signed_request_object", "RequireSignedRequestObject", "b", false},
		{"pushed_authorization_request_endpoint", "PushedAuthorizationRequestEndpoint", "s", false},
		{"require_pushed_authorization_requests", "RequirePushedAuthorizationRequests", "b", false},
		{"authorization_response_iss_parameter_supported", "AuthorizationResponseIssParameterSupported", "b", false},
		{"check_session_iframe", "CheckSessionIFrame", "s", false},
		{"frontchannel_logout_supported", "FrontchannelLogoutSupported", "b", false},
		{"backchannel_logout_supported", "BackchannelLogoutSupported", "b", false},
		{"backchannel_logout_session_supported", "BackchannelLogoutSessionSupported", "b", false},
		{"end_session_endpoint", "EndSessionEndpoint", "s", false},
		{"backchannel_token_delivery_modes_supported", "BackchannelTokenDeliveryModesSupported", "l", false},
		{"backchannel_authentication_endpoint", "BackchannelAuthenticationEndpoint", "s", false},
		{"backchannel_authentication_request_signing_alg_values_supported", "BackchannelAuthenticationRequestSigningAlgValuesSupported", "l", false},
		{"backchannel_user_code_parameter_supported", "BackchannelUserCodeParameterSupported", "b", false},
		{"authorization_details_types_supported", "AuthorizationDetailsTypesSupported", "l", false},
		{"client_registration_types_supported", "ClientRegistrationTypesSupported", "l", true},
		{"federation_registration_endpoint", "FederationRegistrationEndpoint", "s", false},
		{"request_authentication_methods_supported", "RequestAuthenticationMethodsSupported", "m", false},
		{"request_authentication_signing_alg_values_supported", "RequestAuthenticationSigningAlgValuesSupported", "l", false},
		{"signed_jwks_uri", "SignedJWKSURI", "s", false},
		{"jwks_uri", "JWKSURI", "s", false},
		{"jwks", "JWKS", "j", false},
		{"display_name", "DisplayName", "s", false},
		{"description", "Description", "s", false},
		{"keywords", "Keywords", "l", false},
		{"contacts", "Contacts", "l", false},
		{"logo_uri", "LogoURI", "s", false},
		{"policy_uri", "PolicyURI", "s", false},
		{"information_uri", "InformationURI", "s", false},
		{"organization_name", "OrganizationName", "s", false},
		{"organization_uri", "OrganizationURI", "s", false},
	},
	"openid_relying_party": {
		{"scope", "Scope", "s", false},
		{"redirect_uris", "RedirectURIS", "l", false},
		{"response_types", "ResponseTypes", "l", false},
		{"grant_types", "GrantTypes", "l", false},
		{"application_type", "ApplicationType", "s", false},
		{"contacts", "Contacts", "l", false},
		{"client_name", "ClientName", "s", false},
		{"logo_uri", "LogoURI", "s", false},
		{"client_uri", "ClientURI", "s", false},
		{"policy_uri", "PolicyURI", "s", false},
		{"tos_uri", "TOSURI", "s", false},
		{"sector_identifier_uri", "SectorIdentifierURI", "s", false},
		{"subject_type", "SubjectType", "s", false},
		{"id_token_signed_response_alg", "IDTokenSignedResponseAlg", "s", false},
		{"id_token_encrypted_response_alg", "IDTokenEncryptedResponseAlg", "s", false},
		{"id_token_encrypted_response_enc", "IDTokenEncryptedResponseEnc", "s", false},
		{"userinfo_signed_response_alg", "UserinfoSignedResponseAlg", "s", false},
		{"userinfo_encrypted_response_alg", "UserinfoEncryptedResponseAlg", "s", false},
		{"userinfo_encrypted_response_enc", "UserinfoEncryptedResponseEnc", "s", false},
		{"request_signed_response_alg", "RequestSignedResponseAlg", "s", false},
		{"request_encrypted_response_alg", "RequestEncryptedResponseAlg", "s", false},
		{"request_encrypted_response_enc", "RequestEncryptedResponseEnc", "s", false},
		{"token_endpoint_auth_method", "TokenEndpointAuthMethod", "s", false},
		{"token_endpoint_auth_signing_alg", "TokenEndpointAuthSigningAlg", "s", false},
		{"default_max_age", "DefaultMaxAge", "i", false},
		{"require_auth_time", "RequireAuthTime", "b", false},
		{"default_acr_values", "DefaultACRValues", "l", false},
		{"initiate_login_uri", "InitiateLoginURI", "s", false},
		{"request_uris", "RequestURIs", "l", false},
		{"software_id", "SoftwareID", "s", false},
		{"software_version", "SoftwareVersion", "s", false},
		{"client_id", "ClientID", "s", false},
		{"client_secret", "ClientSecret", "s", false},
		{"client_id_issued_at", "ClientIDIssuedAt", "i", false},
		{"client_secret_expires_at", "ClientSecretExpiresAt", "i", false},
		{"registration_access_token", "RegistrationAccessToken", "s", false},
		{"registration_client_uri", "RegistrationClientURI", "s", false},
		{"claims_redirect_uris", "ClaimsRedirectURIs", "l", false},
		{"nfv_token_signed_response_alg", "NFVTokenSignedResponseAlg", "s", false},
		{"nfv_token_encrypted_response_alg", "NFVTokenEncryptedResponseAlg", "s", false},
		{"nfv_token_encrypted_response_enc", "NFVTokenEncryptedResponseEnc", "s", false},
		{"tls_client_certificate_bound_access_tokens", "TLSClientCertificateBoundAccessTokens", "b", false},
		{"tls_client_auth_subject_dn", "TLSClientAuthSubjectDN", "s", false},
		{"tls_client_auth_san_dns", "TLSClientAuthSANDNS", "s", false},
		{"tls_client_auth_san_uri", "TLSClientAuthSANURI", "s", false},
		{"tls_client_auth_san_ip", "TLSClientAuthSANIP", "s", false},
		{"tls_client_auth_san_email", "TLSClientAuthSANEMAIL", "s", false},
		{"require_signed_request_object", "RequireSignedRequestObject", "b", false},
		{"require_pushed_authorization_requests", "RequirePushedAuthorizationRequests", "b", false},
		{"introspection_signed_response_alg", "IntrospectionSignedResponseAlg", "s", false},
		{"introspection_encrypted_response_alg", "IntrospectionEncryptedResponseAlg", "s", false},
		{"introspection_encrypted_response_enc", "IntrospectionEncryptedResponseEnc", "s", false},
		{"frontchannel_logout_uri", "FrontchannelLogoutURI", "s", false},
		{"frontchannel_logout_session_required", "FrontchannelLogoutSessionRequired", "b", false},
		{"backchannel_logout_uri", "BackchannelLogoutURI", "s", false},
		{"backchannel_logout_session_required", "BackchannelLogoutSessionRequired", "b", false},
		{"post_logout_redirect_uris", "PostLogoutRedirectURIs", "l", false},
		{"authorization_details_types", "AuthorizationDetailsTypes", "l", false},
		{"client_registration_types", "ClientRegistrationTypes", "l", true},
		{"signed_jwks_uri", "SignedJWKSURI", "s", false},
		{"jwks_uri", "JWKSURI", "s", false},
		{"jwks", "JWKS", "j", false},
		{"display_name", "DisplayName", "s", false},
		{"description", "Description", "s", false},
		{"keywords", "Keywords", "l", false},
		{"information_uri", "InformationURI", "s", false},
		{"organization_name", "OrganizationName", "s", false},
		{"organization_uri", "OrganizationURI", "s", false},
	},
	"oauth_authorization_server": {
		{"issuer", "Issuer", "s", true},
		{"authorization_endpoint", "AuthorizationEndpoint", "s", true},
		{"token_endpoint", "TokenEndpoint", "s", true},
		{"userinfo_endpoint", "UserinfoEndpoint", "s", false},
		{"registration_endpoint", "RegistrationEndpoint", "s", false},
		{"scopes_supported", "ScopesSupported", "l", false},
		{"response_types_supported", "ResponseTypesSupported", "l", true},
		{"response_modes_supported", "ResponseModesSupported", "l", false},
		{"grant_types_supported", "GrantTypesSupported", "l", false},
		{"acr_values_supported", "ACRValuesSupported", "l", false},
		{"subject_types_supported", "SubjectTypesSupported", "l", true},
		{"id_token_signed_response_alg_values_supported", "IDTokenSignedResponseAlgValuesSupported", "l", false},
		{"id_token_encrypted_response_alg_values_supported", "IDTokenEncryptedResponseAlgValuesSupported", "l", false},
		{"id_token_encrypted_response_enc_values_supported", "IDTokenEncryptedResponseEncValuesSupported", "l", false},
		{"userinfo_signed_response_alg_values_supported", "UserinfoSignedResponseAlgValuesSupported", "l", false},
		{"userinfo_encrypted_response_alg_values_supported", "UserinfoEncryptedResponseAlgValuesSupported", "l", false},
		{"userinfo_encrypted_response_enc_values_supported", "UserinfoEncryptedResponseEncValuesSupported", "l", false},
		{"request_signed_response_alg_values_supported", "RequestSignedResponseAlgValuesSupported", "l", false},
		{"request_encrypted_response_alg_values_supported", "RequestEncryptedResponseAlgValuesSupported", "l", false},
		{"request_encrypted_response_enc_values_supported", "RequestEncryptedResponseEncValuesSupported", "l", false},
		{"token_endpoint_auth_methods_supported", "TokenEndpointAuthMethodsSupported", "l", false},
		{"token_endpoint_auth_signing_alg_values_supported", "TokenEndpointAuthSigningAlgValuesSupported", "l", false},
		{"display_values_supported", "DisplayValuesSupported", "l", false},
		{"claims_supported", "ClaimsSupported", "l", false},
		{"service_documentation", "ServiceDocumentation", "s", false},
		{"claims_locales_supported", "ClaimsLocalesSupported", "l", false},
		{"ui_locales_supported", "UILocalesSupported", "l", false},
		{"claims_parameter_supported", "ClaimsParameterSupported", "b", false},
		{"request_parameter_supported", "RequestParameterSupported", "b", false},
		{"request_uri_parameter_supported", "RequestURIParameterSupported", "b", false},
		{"require_request_uri_registration", "RequireRequestURIRegistration", "b", false},
		{"op_policy_uri", "OPPolicyURI", "s", false},
		{"op_tos_uri", "OPTOSURI", "s", false},
		{"revocation_endpoint", "RevocationEndpoint", "s", false},
		{"revocation_endpoint_auth_methods_supported", "RevocationEndpointAuthMethodsSupported", "l", false},
		{"revocation_endpoint_auth_signing_alg_values_supported", "RevocationEndpointAuthSigningAlgValuesSupported", "l", false},
		{"introspection_endpoint", "IntrospectionEndpoint", "s", false},
		{"introspection_endpoint_auth_methods_supported", "IntrospectionEndpointAuthMethodsSupported", "l", false},
		{"introspection_endpoint_auth_signing_alg_values_supported", "IntrospectionEndpointAuthSigningAlgValuesSupported", "l", false},
		{"introspection_signing_alg_values_supported", "IntrospectionSigningAlgValuesSupported", "l", false},
		{"introspection_encryption_alg_values_supported", "IntrospectionEncryptionAlgValuesSupported", "l", false},
		{"introspection_encryption_enc_values_supported", "IntrospectionEncryptionEncValuesSupported", "l", false},
		{"code_challenge_methods_supported", "CodeChallengeMethodsSupported", "l", false},
		{"signed_metadata", "SignedMetadata", "s", false},
		{"device_authorization_endpoint", "DeviceAuthorizationEndpoint", "s", false},
		{"tls_client_certificate_bound_access_tokens", "TLSClientCertificateBoundAccessTokens", "b", false},
		{"mtls_endpoint_aliases", "MTLSEndpointAliases", "m", false},
		{"nfv_token_signing_alg_values_supported", "NFVTokenSigningAlgValuesSupported", "l", false},
		{"nfv_token_encryption_alg_values_supported", "NFVTokenEncryptionAlgValuesSupported", "l", false},
		{"nfv_token_encryption_enc_values_supported", "NFVTokenEncryptionEncValuesSupported", "l", false},
		{"require_signed_request_object", "RequireSignedRequestObject", "b", false},
		{"pushed_authorization_request_endpoint", "PushedAuthorizationRequestEndpoint", "s", false},
		{"require_pushed_authorization_requests", "RequirePushedAuthorizationRequests", "b", false},
		{"authorization_response_iss_parameter_supported", "AuthorizationResponseIssParameterSupported", "b", false},
		{"check_session_iframe", "CheckSessionIFrame", "s", false},
		{"frontchannel_logout_supported", "FrontchannelLogoutSupported", "b", false},
		{"backchannel_logout_supported", "BackchannelLogoutSupported", "b", false},
		{"backchannel_logout_session_supported", "BackchannelLogoutSessionSupported", "b", false},
		{"end_session_endpoint", "EndSessionEndpoint", "s", false},
		{"backchannel_token_delivery_modes_supported", "BackchannelTokenDeliveryModesSupported", "l", false},
		{"backchannel_authentication_endpoint", "BackchannelAuthenticationEndpoint", "s", false},
		{"backchannel_authentication_request_signing_alg_values_supported", "BackchannelAuthenticationRequestSigningAlgValuesSupported", "l", false},
		{"backchannel_user_code_parameter_supported", "BackchannelUserCodeParameterSupported", "b", false},
		{"authorization_details_types_supported", "AuthorizationDetailsTypesSupported", "l", false},
		{"client_registration_types_supported", "ClientRegistrationTypesSupported", "l", true},
		{"federation_registration_endpoint", "FederationRegistrationEndpoint", "s", false},
		{"request_authentication_methods_supported", "RequestAuthenticationMethodsSupported", "m", false},
		{"request_authentication_signing_alg_values_supported", "RequestAuthenticationSigningAlgValuesSupported", "l", false},
		{"signed_jwks_uri", "SignedJWKSURI", "s", false},
		{"jwks_uri", "JWKSURI", "s", false},
		{"jwks", "JWKS", "j", false},
		{"display_name", "DisplayName", "s", false},
		{"description", "Description", "s", false},
		{"keywords", "Keywords", "l", false},
		{"contacts", "Contacts", "l", false},
		{"logo_uri", "LogoURI", "s", false},
		{"policy_uri", "PolicyURI", "s", false},
		{"information_uri", "InformationURI", "s", false},
		{"organization_name", "OrganizationName", "s", false},
		{"organization_uri", "OrganizationURI", "s", false},
	},
	"oauth_client": {
		{"scope", "Scope", "s", false},
		{"redirect_uris", "RedirectURIS", "l", false},
		{"response_types", "ResponseTypes", "l", false},
		{"grant_types", "GrantTypes", "l", false},
		{"application_type", "ApplicationType", "s", false},
		{"contacts", "Contacts", "l", false},
		{"client_name", "ClientName", "s", false},
		{"logo_uri", "LogoURI", "s", false},
		{"client_uri", "ClientURI", "s", false},
		{"policy_uri", "PolicyURI", "s", false},
		{"tos_uri", "TOSURI", "s", false},
		{"sector_identifier_uri", "SectorIdentifierURI", "s", false},
		{"subject_type", "SubjectType", "s", false},
		{"id_token_signed_response_alg", "IDTokenSignedResponseAlg", "s", false},
		{"id_token_encrypted_response_alg", "IDTokenEncryptedResponseAlg", "s", false},
		{"id_token_encrypted_response_enc", "IDTokenEncryptedResponseEnc", "s", false},
		{"userinfo_signed_response_alg", "UserinfoSignedResponseAlg", "s", false},
		{"userinfo_encrypted_response_alg", "UserinfoEncryptedResponseAlg", "s", false},
		{"userinfo_encrypted_response_enc", "UserinfoEncryptedResponseEnc", "s", false},
		{"request_signed_response_alg", "RequestSignedResponseAlg", "s", false},
		{"request_encrypted_response_alg", "RequestEncryptedResponseAlg", "s", false},
		{"request_encrypted_response_enc", "RequestEncryptedResponseEnc", "s", false},
		{"token_endpoint_auth_method", "TokenEndpointAuthMethod", "s", false},
		{"token_endpoint_auth_signing_alg", "TokenEndpointAuthSigningAlg", "s", false},
		{"default_max_age", "DefaultMaxAge", "i", false},
		{"require_auth_time", "RequireAuthTime", "b", false},
		{"default_acr_values", "DefaultACRValues", "l", false},
		{"initiate_login_uri", "InitiateLoginURI", "s", false},
		{"request_uris", "RequestURIs", "l", false},
		{"software_id", "SoftwareID", "s", false},
		{"software_version", "SoftwareVersion", "s", false},
		{"client_id", "ClientID", "s", false},
		{"client_secret", "ClientSecret", "s", false},
		{"client_id_issued_at", "ClientIDIssuedAt", "i", false},
		{"client_secret_expires_at", "ClientSecretExpiresAt", "i", false},
		{"registration_access_token", "RegistrationAccessToken", "s", false},
		{"registration_client_uri", "RegistrationClientURI", "s", false},
		{"claims_redirect_uris", "ClaimsRedirectURIs", "l", false},
		{"nfv_token_signed_response_alg", "NFVTokenSignedResponseAlg", "s", false},
		{"nfv_token_encrypted_response_alg", "NFVTokenEncryptedResponseAlg", "s", false},
		{"nfv_token_encrypted_response_enc", "NFVTokenEncryptedResponseEnc", "s", false},
		{"tls_client_certificate_bound_access_tokens", "TLSClientCertificateBoundAccessTokens", "b", false},
		{"tls_client_auth_subject_dn", "TLSClientAuthSubjectDN", "s", false},
		{"tls_client_auth_san_dns", "TLSClientAuthSANDNS", "s", false},
		{"tls_client_auth_san_uri", "TLSClientAuthSANURI", "s", false},
		{"tls_client_auth_san_ip", "TLSClientAuthSANIP", "s", false},
		{"tls_client_auth_san_email", "TLSClientAuthSANEMAIL", "s", false},
		{"require_signed_request_object", "RequireSignedRequestObject", "b", false},
		{"require_pushed_authorization_requests", "RequirePushedAuthorizationRequests", "b", false},
		{"introspection_signed_response_alg", "IntrospectionSignedResponseAlg", "s", false},
		{"introspection_encrypted_response_alg", "IntrospectionEncryptedResponseAlg", "s", false},
		{"introspection_encrypted_response_enc", "IntrospectionEncryptedResponseEnc", "s", false},
		{"frontchannel_logout_uri", "FrontchannelLogoutURI", "s", false},
		{"frontchannel_logout_session_required", "FrontchannelLogoutSessionRequired", "b", false},
		{"backchannel_logout_uri", "BackchannelLogoutURI", "s", false},
		{"backchannel_logout_session_required", "BackchannelLogoutSessionRequired", "b", false},
		{"post_logout_redirect_uris", "PostLogoutRedirectURIs", "l", false},
		{"authorization_details_types", "AuthorizationDetailsTypes", "l", false},
		{"client_registration_types", "ClientRegistrationTypes", "l", true},
		{"signed_jwks_uri", "SignedJWKSURI", "s", false},
		{"jwks_uri", "JWKSURI", "s", false},
		{"jwks", "JWKS", "j", false},
		{"display_name", "DisplayName", "s", false},
		{"description", "Description", "s", false},
		{"keywords", "Keywords", "l", false},
		{"information_uri", "InformationURI", "s", false},
		{"organization_name", "OrganizationName", "s", false},
		{"organization_uri", "OrganizationURI", "s", false},
	},
	"oauth_resource": {
		{"resource", "Resource", "s", false},
		{"authorization_servers", "AuthorizationServers", "l", false},
		{"scopes_supported", "ScopesSupported", "l", false},
		{"bearer_methods_supported", "BearerMethodsSupported", "l", false},
		{"resource_signing_alg_values_supported", "ResourceSigningAlgValuesSupported", "l", false},
		{"resource_encryption_alg_values_supported", "ResourceEncryptionAlgValuesSupported", "l", true},
		{"resource_encryption_enc_values_supported", "ResourceEncryptionEncValuesSupported", "l", true},
		{"resource_name", "ResourceName", "s", false},
		{"resource_documentation", "ResourceDocumentation", "s", false},
		{"resource_policy_uri", "ResourcePolicyURI", "s", false},
		{"resource_tos_uri", "ResourceTOSURI", "s", false},
		{"signed_jwks_uri", "SignedJWKSURI", "s", false},
		{"jwks_uri", "JWKSURI", "s", false},
		{"jwks", "JWKS", "j", false},
		{"display_name", "DisplayName", "s", false},
		{"description", "Description", "s", false},
		{"keywords", "Keywords", "l", false},
		{"contacts", "Contacts", "l", false},
		{"logo_uri", "LogoURI", "s", false},
		{"policy_uri", "PolicyURI", "s", false},
		{"information_uri", "InformationURI", "s", false},
		{"organization_name", "OrganizationName", "s", false},
		{"organization_uri", "OrganizationURI", "s", false},
	},
	"federation_entity": {
		{"federation_fetch_endpoint", "FederationFetchEndpoint", "s", false},
		{"federation_list_endpoint", "FederationListEndpoint", "s", false},
		{"federation_resolve_endpoint", "FederationResolveEndpoint", "s", false},
		{"federation_trust_mark_status_endpoint", "FederationTrustMarkStatusEndpoint", "s", false},
		{"federation_trust_mark_list_endpoint", "FederationTrustMarkListEndpoint", "s", false},
		{"federation_trust_mark_endpoint", "FederationTrustMarkEndpoint", "s", false},
		{"federation_historical_keys_endpoint", "FederationHistoricalLKeysEndpoint", "s", false},
		{"display_name", "DisplayName", "s", false},
		{"description", "Description", "s", false},
		{"keywords", "Keywords", "l", false},
		{"contacts", "Contacts", "l", false},
		{"logo_uri", "LogoURI", "s", false},
		{"policy_uri", "PolicyURI", "s", false},
		{"information_uri", "InformationURI", "s", false},
		{"organization_name", "OrganizationName", "s", false},
		{"organization_uri", "OrganizationURI", "s", false},
	},
}
