// A model of the libcurl easy interface: requests are recorded, outcomes chosen by the harness.
#pragma once
#include "common.h"
#include <curl/curl.h>
#include <stdarg.h>
#include <string.h>
#undef curl_easy_setopt
#undef curl_easy_getinfo
struct chandle {
	str url, userpwd, copied;
	long port = 0, postsize = -1, auth = 0, fail = 0, post = 0, httpget = 0;
	const char *postfields = nullptr;
	bool have_post = false, have_cred = false;
	str user, pass, custom;
	bool closed = false;
	size_t (*write)(void *, size_t, size_t, void *) = nullptr;
	void *wdata = nullptr;
	long code = 0;
	curl_slist *hdrs = nullptr;
};
struct crequest { str url, body, user, pass; long port; bool post, basic; };
enum coutcome { C_OK, C_HTTP_ERROR, C_CONNECT, C_NOINIT };
struct cworld {
	std::vector<crequest> requests;
	int (*outcome)() = nullptr; // of the next attempt
	int next = -1; // decided when the handle is created
	int handles = 0;
};
inline cworld &cw() { static cworld *w = new cworld(); return *w; }
static inline chandle *ch(CURL *h) { chandle *c = (chandle *) h; if (!c || c->closed) sym_fail("an invalid curl handle is used"); return c; }
extern "C" {
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup() {}
CURL *curl_easy_init()
{
	cw().next = cw().outcome ? cw().outcome() : C_OK;
	if (cw().next == C_NOINIT) return nullptr;
	cw().handles++;
	return (CURL *) new chandle();
}
void curl_easy_cleanup(CURL *h) { if (!h) return; chandle *c = ch(h); c->closed = true; delete c; cw().handles--; }
void curl_easy_reset(CURL *h) { chandle *c = ch(h); *c = chandle(); }
CURLcode curl_easy_setopt(CURL *h, CURLoption o, ...)
{
	chandle *c = ch(h);
	va_list ap;
	va_start(ap, o);
	switch ((int) o) {
	case CURLOPT_URL: c->url = va_arg(ap, const char *); break;
	case CURLOPT_PORT: c->port = va_arg(ap, long); break;
	case CURLOPT_POST: c->post = va_arg(ap, long); if (c->post) c->have_post = true; break;
	case CURLOPT_HTTPGET: c->httpget = va_arg(ap, long); if (c->httpget) c->have_post = false; break;
	case CURLOPT_CUSTOMREQUEST: c->custom = va_arg(ap, const char *); break;
	case CURLOPT_POSTFIELDS: c->postfields = va_arg(ap, const char *); c->have_post = true; break;
	case CURLOPT_COPYPOSTFIELDS: { const char *p = va_arg(ap, const char *); c->copied = c->postsize >= 0 ? str(p, (size_t) c->postsize) : str(p); c->postfields = c->copied.c_str(); c->have_post = true; break; }
	case CURLOPT_POSTFIELDSIZE: c->postsize = va_arg(ap, long); break;
	case CURLOPT_POSTFIELDSIZE_LARGE: c->postsize = (long) va_arg(ap, curl_off_t); break;
	case CURLOPT_HTTPAUTH: c->auth = va_arg(ap, long); break;
	case CURLOPT_USERPWD: c->userpwd = va_arg(ap, const char *); c->have_cred = true; break;
	case CURLOPT_USERNAME: c->user = va_arg(ap, const char *); break;
	case CURLOPT_PASSWORD: c->pass = va_arg(ap, const char *); break;
	case CURLOPT_FAILONERROR: c->fail = va_arg(ap, long); break;
	case CURLOPT_WRITEFUNCTION: c->write = va_arg(ap, size_t (*)(void *, size_t, size_t, void *)); break;
	case CURLOPT_WRITEDATA: c->wdata = va_arg(ap, void *); break;
	case CURLOPT_HTTPHEADER: c->hdrs = va_arg(ap, curl_slist *); break;
	default: break; // without influence on what is sent
	}
	va_end(ap);
	return CURLE_OK;
}
CURLcode curl_easy_perform(CURL *h)
{
	chandle *c = ch(h);
	crequest r;
	r.url = c->url; r.port = c->port;
	r.post = c->have_post && (c->custom.empty() || c->custom == "POST");
	if (c->have_post && c->postfields) r.body = c->postsize >= 0 ? str(c->postfields, (size_t) c->postsize) : str(c->postfields);
	r.user = c->user; r.pass = c->pass;
	if (c->have_cred) { auto p = c->userpwd.find(':'); r.user = c->userpwd.substr(0, p); r.pass = p == str::npos ? "" : c->userpwd.substr(p + 1); }
	r.basic = (c->auth == 0 || (c->auth & CURLAUTH_BASIC)) && !(r.user.empty() && r.pass.empty());
	cw().requests.push_back(r);
	int o = cw().next;
	if (o == C_CONNECT) { c->code = 0; return CURLE_COULDNT_CONNECT; }
	c->code = o == C_OK ? 200 : 503;
	if (o == C_HTTP_ERROR && c->fail) return CURLE_HTTP_RETURNED_ERROR;
	if (c->write) {
		static const char body[] = "{\"ok\":1}";
		char *p = new char[8]; // not terminated
		memcpy(p, body, 8);
		if (c->write(p, 1, 5, c->wdata) != 5) { delete[] p; return CURLE_WRITE_ERROR; }
		if (c->write(p + 5, 1, 3, c->wdata) != 3) { delete[] p; return CURLE_WRITE_ERROR; }
		delete[] p;
	}
	return CURLE_OK;
}
CURLcode curl_easy_getinfo(CURL *h, CURLINFO i, ...)
{
	chandle *c = ch(h);
	va_list ap;
	va_start(ap, i);
	if (i == CURLINFO_RESPONSE_CODE) *va_arg(ap, long *) = c->code;
	va_end(ap);
	return CURLE_OK;
}
const char *curl_easy_strerror(CURLcode) { return "curl error"; }
char *curl_easy_escape(CURL *, const char *s, int n)
{
	static const char d[] = "0123456789ABCDEF";
	str r;
	size_t len = n ? (size_t) n : strlen(s);
	for (size_t i = 0; i < len; i++) {
		unsigned char c = (unsigned char) s[i];
		if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '.' || c == '_' || c == '~') r += (char) c;
		else { r += '%'; r += d[c >> 4]; r += d[c & 15]; }
	}
	char *o = (char *) malloc(r.size() + 1);
	memcpy(o, r.c_str(), r.size() + 1);
	return o;
}
char *curl_escape(const char *s, int n) { return curl_easy_escape(nullptr, s, n); }
void curl_free(void *p) { free(p); }
curl_slist *curl_slist_append(curl_slist *l, const char *) { return l; }
void curl_slist_free_all(curl_slist *) {}
}
// decoding of application/x-www-form-urlencoded
static inline int c_hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static inline str c_decode(const str &s)
{
	str r;
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] == '%') {
			sym_assert(i + 2 < s.size(), "a form parameter is not encoded properly");
			int a = c_hex(s[i + 1]), b = c_hex(s[i + 2]);
			sym_assert(a >= 0 && b >= 0, "a form parameter is not encoded properly");
			r += (char) (a * 16 + b);
			i += 2;
		} else r += s[i] == '+' ? ' ' : s[i];
	}
	return r;
}
static inline std::vector<std::pair<str, str>> c_form(const str &body)
{
	std::vector<std::pair<str, str>> r;
	size_t i = 0;
	while (i < body.size()) {
		size_t j = i, eq = str::npos;
		while (j < body.size() && body[j] != '&') { if (eq == str::npos && body[j] == '=') eq = j; j++; }
		if (j > i) r.push_back(eq == str::npos ? std::make_pair(c_decode(body.substr(i, j - i)), str()) : std::make_pair(c_decode(body.substr(i, eq - i)), c_decode(body.substr(eq + 1, j - eq - 1))));
		i = j + 1;
	}
	return r;
}
