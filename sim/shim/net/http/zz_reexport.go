// Code generated by genshim; DO NOT EDIT.

package http

import (
	x_alda_sim_shim_io "alda.sim/shim/io"
	x_alda_sim_shim_net "alda.sim/shim/net"
	x_alda_sim_shim_time "alda.sim/shim/time"
	x_bufio "bufio"
	x_io_fs "io/fs"
	real "net/http"
	x_net_url "net/url"
)

func AllowQuerySemicolons(h Handler) Handler {
	panic("simulation: net/http.AllowQuerySemicolons is not modelled")
}

var CanonicalHeaderKey = real.CanonicalHeaderKey

type ClientConn = real.ClientConn
type CloseNotifier = real.CloseNotifier
type ConnState = real.ConnState
type Cookie = real.Cookie
type CookieJar = real.CookieJar
type CrossOriginProtection = real.CrossOriginProtection

const DefaultMaxHeaderBytes = real.DefaultMaxHeaderBytes
const DefaultMaxHeaderValueCount = real.DefaultMaxHeaderValueCount
const DefaultMaxIdleConnsPerHost = real.DefaultMaxIdleConnsPerHost

var DefaultServeMux = real.DefaultServeMux
var DefaultTransport = real.DefaultTransport
var DetectContentType = real.DetectContentType

type Dir = real.Dir

var ErrAbortHandler = real.ErrAbortHandler
var ErrBodyNotAllowed = real.ErrBodyNotAllowed
var ErrBodyReadAfterClose = real.ErrBodyReadAfterClose
var ErrContentLength = real.ErrContentLength
var ErrHandlerTimeout = real.ErrHandlerTimeout
var ErrHeaderTooLong = real.ErrHeaderTooLong
var ErrHijacked = real.ErrHijacked
var ErrLineTooLong = real.ErrLineTooLong
var ErrMissingBoundary = real.ErrMissingBoundary
var ErrMissingContentLength = real.ErrMissingContentLength
var ErrMissingFile = real.ErrMissingFile
var ErrNoCookie = real.ErrNoCookie
var ErrNoLocation = real.ErrNoLocation
var ErrNotMultipart = real.ErrNotMultipart
var ErrNotSupported = real.ErrNotSupported
var ErrSchemeMismatch = real.ErrSchemeMismatch
var ErrServerClosed = real.ErrServerClosed
var ErrShortBody = real.ErrShortBody
var ErrSkipAltProtocol = real.ErrSkipAltProtocol
var ErrUnexpectedTrailer = real.ErrUnexpectedTrailer
var ErrUseLastResponse = real.ErrUseLastResponse
var ErrWriteAfterFlush = real.ErrWriteAfterFlush
var Error = real.Error

func FS(fsys x_io_fs.FS) FileSystem { panic("simulation: net/http.FS is not modelled") }

type File = real.File

func FileServer(root FileSystem) Handler { panic("simulation: net/http.FileServer is not modelled") }
func FileServerFS(root x_io_fs.FS) Handler {
	panic("simulation: net/http.FileServerFS is not modelled")
}

type FileSystem = real.FileSystem
type Flusher = real.Flusher
type HTTP2Config = real.HTTP2Config

func Handle(pattern string, handler Handler) { panic("simulation: net/http.Handle is not modelled") }
func HandleFunc(pattern string, handler func(ResponseWriter, *Request)) {
	panic("simulation: net/http.HandleFunc is not modelled")
}

type Handler = real.Handler
type HandlerFunc = real.HandlerFunc
type Header = real.Header
type Hijacker = real.Hijacker

func ListenAndServe(addr string, handler Handler) error {
	panic("simulation: net/http.ListenAndServe is not modelled")
}
func ListenAndServeTLS(addr string, certFile string, keyFile string, handler Handler) error {
	panic("simulation: net/http.ListenAndServeTLS is not modelled")
}

var LocalAddrContextKey = real.LocalAddrContextKey

type MaxBytesError = real.MaxBytesError

func MaxBytesHandler(h Handler, n int64) Handler {
	panic("simulation: net/http.MaxBytesHandler is not modelled")
}

var MaxBytesReader = real.MaxBytesReader

const MethodConnect = real.MethodConnect
const MethodDelete = real.MethodDelete
const MethodGet = real.MethodGet
const MethodHead = real.MethodHead
const MethodOptions = real.MethodOptions
const MethodPatch = real.MethodPatch
const MethodPost = real.MethodPost
const MethodPut = real.MethodPut
const MethodTrace = real.MethodTrace

func NewCrossOriginProtection() *CrossOriginProtection {
	panic("simulation: net/http.NewCrossOriginProtection is not modelled")
}
func NewFileTransport(fs FileSystem) RoundTripper {
	panic("simulation: net/http.NewFileTransport is not modelled")
}
func NewFileTransportFS(fsys x_io_fs.FS) RoundTripper {
	panic("simulation: net/http.NewFileTransportFS is not modelled")
}

var NewRequest = real.NewRequest

func NewResponseController(rw ResponseWriter) *ResponseController {
	panic("simulation: net/http.NewResponseController is not modelled")
}

var NewServeMux = real.NewServeMux
var NoBody = real.NoBody
var NotFound = real.NotFound
var NotFoundHandler = real.NotFoundHandler

func ParseCookie(line string) ([]*Cookie, error) {
	panic("simulation: net/http.ParseCookie is not modelled")
}

var ParseHTTPVersion = real.ParseHTTPVersion

func ParseSetCookie(line string) (*Cookie, error) {
	panic("simulation: net/http.ParseSetCookie is not modelled")
}

var ParseTime = real.ParseTime

type ProtocolError = real.ProtocolError
type Protocols = real.Protocols

func ProxyFromEnvironment(req *Request) (*x_net_url.URL, error) {
	panic("simulation: net/http.ProxyFromEnvironment is not modelled")
}
func ProxyURL(fixedURL *x_net_url.URL) func(*Request) (*x_net_url.URL, error) {
	panic("simulation: net/http.ProxyURL is not modelled")
}

type PushOptions = real.PushOptions
type Pusher = real.Pusher

func ReadRequest(b *x_bufio.Reader) (*Request, error) {
	panic("simulation: net/http.ReadRequest is not modelled")
}
func ReadResponse(r *x_bufio.Reader, req *Request) (*Response, error) {
	panic("simulation: net/http.ReadResponse is not modelled")
}

var Redirect = real.Redirect

func RedirectHandler(url string, code int) Handler {
	panic("simulation: net/http.RedirectHandler is not modelled")
}

type Request = real.Request
type Response = real.Response
type ResponseController = real.ResponseController
type ResponseWriter = real.ResponseWriter
type RoundTripper = real.RoundTripper
type SameSite = real.SameSite

const SameSiteDefaultMode = real.SameSiteDefaultMode
const SameSiteLaxMode = real.SameSiteLaxMode
const SameSiteNoneMode = real.SameSiteNoneMode
const SameSiteStrictMode = real.SameSiteStrictMode

func Serve(l x_alda_sim_shim_net.Listener, handler Handler) error {
	panic("simulation: net/http.Serve is not modelled")
}
func ServeContent(w ResponseWriter, req *Request, name string, modtime x_alda_sim_shim_time.Time, content x_alda_sim_shim_io.ReadSeeker) {
	panic("simulation: net/http.ServeContent is not modelled")
}
func ServeFile(w ResponseWriter, r *Request, name string) {
	panic("simulation: net/http.ServeFile is not modelled")
}
func ServeFileFS(w ResponseWriter, r *Request, fsys x_io_fs.FS, name string) {
	panic("simulation: net/http.ServeFileFS is not modelled")
}

type ServeMux = real.ServeMux

func ServeTLS(l x_alda_sim_shim_net.Listener, handler Handler, certFile string, keyFile string) error {
	panic("simulation: net/http.ServeTLS is not modelled")
}

type Server = real.Server

var ServerContextKey = real.ServerContextKey

func SetCookie(w ResponseWriter, cookie *Cookie) {
	panic("simulation: net/http.SetCookie is not modelled")
}

const StateActive = real.StateActive
const StateClosed = real.StateClosed
const StateHijacked = real.StateHijacked
const StateIdle = real.StateIdle
const StateNew = real.StateNew
const StatusAccepted = real.StatusAccepted
const StatusAlreadyReported = real.StatusAlreadyReported
const StatusBadGateway = real.StatusBadGateway
const StatusBadRequest = real.StatusBadRequest
const StatusConflict = real.StatusConflict
const StatusContinue = real.StatusContinue
const StatusCreated = real.StatusCreated
const StatusEarlyHints = real.StatusEarlyHints
const StatusExpectationFailed = real.StatusExpectationFailed
const StatusFailedDependency = real.StatusFailedDependency
const StatusForbidden = real.StatusForbidden
const StatusFound = real.StatusFound
const StatusGatewayTimeout = real.StatusGatewayTimeout
const StatusGone = real.StatusGone
const StatusHTTPVersionNotSupported = real.StatusHTTPVersionNotSupported
const StatusIMUsed = real.StatusIMUsed
const StatusInsufficientStorage = real.StatusInsufficientStorage
const StatusInternalServerError = real.StatusInternalServerError
const StatusLengthRequired = real.StatusLengthRequired
const StatusLocked = real.StatusLocked
const StatusLoopDetected = real.StatusLoopDetected
const StatusMethodNotAllowed = real.StatusMethodNotAllowed
const StatusMisdirectedRequest = real.StatusMisdirectedRequest
const StatusMovedPermanently = real.StatusMovedPermanently
const StatusMultiStatus = real.StatusMultiStatus
const StatusMultipleChoices = real.StatusMultipleChoices
const StatusNetworkAuthenticationRequired = real.StatusNetworkAuthenticationRequired
const StatusNoContent = real.StatusNoContent
const StatusNonAuthoritativeInfo = real.StatusNonAuthoritativeInfo
const StatusNotAcceptable = real.StatusNotAcceptable
const StatusNotExtended = real.StatusNotExtended
const StatusNotFound = real.StatusNotFound
const StatusNotImplemented = real.StatusNotImplemented
const StatusNotModified = real.StatusNotModified
const StatusOK = real.StatusOK
const StatusPartialContent = real.StatusPartialContent
const StatusPaymentRequired = real.StatusPaymentRequired
const StatusPermanentRedirect = real.StatusPermanentRedirect
const StatusPreconditionFailed = real.StatusPreconditionFailed
const StatusPreconditionRequired = real.StatusPreconditionRequired
const StatusProcessing = real.StatusProcessing
const StatusProxyAuthRequired = real.StatusProxyAuthRequired
const StatusRequestEntityTooLarge = real.StatusRequestEntityTooLarge
const StatusRequestHeaderFieldsTooLarge = real.StatusRequestHeaderFieldsTooLarge
const StatusRequestTimeout = real.StatusRequestTimeout
const StatusRequestURITooLong = real.StatusRequestURITooLong
const StatusRequestedRangeNotSatisfiable = real.StatusRequestedRangeNotSatisfiable
const StatusResetContent = real.StatusResetContent
const StatusSeeOther = real.StatusSeeOther
const StatusServiceUnavailable = real.StatusServiceUnavailable
const StatusSwitchingProtocols = real.StatusSwitchingProtocols
const StatusTeapot = real.StatusTeapot
const StatusTemporaryRedirect = real.StatusTemporaryRedirect

var StatusText = real.StatusText

const StatusTooEarly = real.StatusTooEarly
const StatusTooManyRequests = real.StatusTooManyRequests
const StatusUnauthorized = real.StatusUnauthorized
const StatusUnavailableForLegalReasons = real.StatusUnavailableForLegalReasons
const StatusUnprocessableEntity = real.StatusUnprocessableEntity
const StatusUnsupportedMediaType = real.StatusUnsupportedMediaType
const StatusUpgradeRequired = real.StatusUpgradeRequired
const StatusUseProxy = real.StatusUseProxy
const StatusVariantAlsoNegotiates = real.StatusVariantAlsoNegotiates

var StripPrefix = real.StripPrefix

const TimeFormat = real.TimeFormat

func TimeoutHandler(h Handler, dt x_alda_sim_shim_time.Duration, msg string) Handler {
	panic("simulation: net/http.TimeoutHandler is not modelled")
}

const TrailerPrefix = real.TrailerPrefix

type Transport = real.Transport
