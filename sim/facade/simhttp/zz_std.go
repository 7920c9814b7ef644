// Code generated by genfacade; DO NOT EDIT.

package simhttp

import std "net/http"

var AllowQuerySemicolons = std.AllowQuerySemicolons
var CanonicalHeaderKey = std.CanonicalHeaderKey

type Client = std.Client
type ClientConn = std.ClientConn
type CloseNotifier = std.CloseNotifier
type ConnState = std.ConnState
type Cookie = std.Cookie
type CookieJar = std.CookieJar
type CrossOriginProtection = std.CrossOriginProtection

const DefaultMaxHeaderBytes = std.DefaultMaxHeaderBytes
const DefaultMaxHeaderValueCount = std.DefaultMaxHeaderValueCount
const DefaultMaxIdleConnsPerHost = std.DefaultMaxIdleConnsPerHost

var DefaultServeMux = std.DefaultServeMux
var DetectContentType = std.DetectContentType

type Dir = std.Dir

var ErrAbortHandler = std.ErrAbortHandler
var ErrBodyNotAllowed = std.ErrBodyNotAllowed
var ErrBodyReadAfterClose = std.ErrBodyReadAfterClose
var ErrContentLength = std.ErrContentLength
var ErrHandlerTimeout = std.ErrHandlerTimeout
var ErrHeaderTooLong = std.ErrHeaderTooLong
var ErrHijacked = std.ErrHijacked
var ErrLineTooLong = std.ErrLineTooLong
var ErrMissingBoundary = std.ErrMissingBoundary
var ErrMissingContentLength = std.ErrMissingContentLength
var ErrMissingFile = std.ErrMissingFile
var ErrNoCookie = std.ErrNoCookie
var ErrNoLocation = std.ErrNoLocation
var ErrNotMultipart = std.ErrNotMultipart
var ErrNotSupported = std.ErrNotSupported
var ErrSchemeMismatch = std.ErrSchemeMismatch
var ErrServerClosed = std.ErrServerClosed
var ErrShortBody = std.ErrShortBody
var ErrSkipAltProtocol = std.ErrSkipAltProtocol
var ErrUnexpectedTrailer = std.ErrUnexpectedTrailer
var ErrUseLastResponse = std.ErrUseLastResponse
var ErrWriteAfterFlush = std.ErrWriteAfterFlush
var Error = std.Error
var FS = std.FS

type File = std.File

var FileServer = std.FileServer
var FileServerFS = std.FileServerFS

type FileSystem = std.FileSystem
type Flusher = std.Flusher
type HTTP2Config = std.HTTP2Config

var Handle = std.Handle
var HandleFunc = std.HandleFunc

type Handler = std.Handler
type HandlerFunc = std.HandlerFunc
type Header = std.Header
type Hijacker = std.Hijacker

var LocalAddrContextKey = std.LocalAddrContextKey

type MaxBytesError = std.MaxBytesError

var MaxBytesHandler = std.MaxBytesHandler
var MaxBytesReader = std.MaxBytesReader

const MethodConnect = std.MethodConnect
const MethodDelete = std.MethodDelete
const MethodGet = std.MethodGet
const MethodHead = std.MethodHead
const MethodOptions = std.MethodOptions
const MethodPatch = std.MethodPatch
const MethodPost = std.MethodPost
const MethodPut = std.MethodPut
const MethodTrace = std.MethodTrace

var NewCrossOriginProtection = std.NewCrossOriginProtection
var NewFileTransport = std.NewFileTransport
var NewFileTransportFS = std.NewFileTransportFS
var NewRequest = std.NewRequest
var NewRequestWithContext = std.NewRequestWithContext
var NewResponseController = std.NewResponseController
var NewServeMux = std.NewServeMux
var NoBody = std.NoBody
var NotFound = std.NotFound
var NotFoundHandler = std.NotFoundHandler
var ParseCookie = std.ParseCookie
var ParseHTTPVersion = std.ParseHTTPVersion
var ParseSetCookie = std.ParseSetCookie
var ParseTime = std.ParseTime

type ProtocolError = std.ProtocolError
type Protocols = std.Protocols

var ProxyFromEnvironment = std.ProxyFromEnvironment
var ProxyURL = std.ProxyURL

type PushOptions = std.PushOptions
type Pusher = std.Pusher

var ReadRequest = std.ReadRequest
var ReadResponse = std.ReadResponse
var Redirect = std.Redirect
var RedirectHandler = std.RedirectHandler

type Request = std.Request
type Response = std.Response
type ResponseController = std.ResponseController
type ResponseWriter = std.ResponseWriter
type RoundTripper = std.RoundTripper
type SameSite = std.SameSite

const SameSiteDefaultMode = std.SameSiteDefaultMode
const SameSiteLaxMode = std.SameSiteLaxMode
const SameSiteNoneMode = std.SameSiteNoneMode
const SameSiteStrictMode = std.SameSiteStrictMode

var Serve = std.Serve
var ServeContent = std.ServeContent
var ServeFile = std.ServeFile
var ServeFileFS = std.ServeFileFS

type ServeMux = std.ServeMux

var ServeTLS = std.ServeTLS
var ServerContextKey = std.ServerContextKey
var SetCookie = std.SetCookie

const StateActive = std.StateActive
const StateClosed = std.StateClosed
const StateHijacked = std.StateHijacked
const StateIdle = std.StateIdle
const StateNew = std.StateNew
const StatusAccepted = std.StatusAccepted
const StatusAlreadyReported = std.StatusAlreadyReported
const StatusBadGateway = std.StatusBadGateway
const StatusBadRequest = std.StatusBadRequest
const StatusConflict = std.StatusConflict
const StatusContinue = std.StatusContinue
const StatusCreated = std.StatusCreated
const StatusEarlyHints = std.StatusEarlyHints
const StatusExpectationFailed = std.StatusExpectationFailed
const StatusFailedDependency = std.StatusFailedDependency
const StatusForbidden = std.StatusForbidden
const StatusFound = std.StatusFound
const StatusGatewayTimeout = std.StatusGatewayTimeout
const StatusGone = std.StatusGone
const StatusHTTPVersionNotSupported = std.StatusHTTPVersionNotSupported
const StatusIMUsed = std.StatusIMUsed
const StatusInsufficientStorage = std.StatusInsufficientStorage
const StatusInternalServerError = std.StatusInternalServerError
const StatusLengthRequired = std.StatusLengthRequired
const StatusLocked = std.StatusLocked
const StatusLoopDetected = std.StatusLoopDetected
const StatusMethodNotAllowed = std.StatusMethodNotAllowed
const StatusMisdirectedRequest = std.StatusMisdirectedRequest
const StatusMovedPermanently = std.StatusMovedPermanently
const StatusMultiStatus = std.StatusMultiStatus
const StatusMultipleChoices = std.StatusMultipleChoices
const StatusNetworkAuthenticationRequired = std.StatusNetworkAuthenticationRequired
const StatusNoContent = std.StatusNoContent
const StatusNonAuthoritativeInfo = std.StatusNonAuthoritativeInfo
const StatusNotAcceptable = std.StatusNotAcceptable
const StatusNotExtended = std.StatusNotExtended
const StatusNotFound = std.StatusNotFound
const StatusNotImplemented = std.StatusNotImplemented
const StatusNotModified = std.StatusNotModified
const StatusOK = std.StatusOK
const StatusPartialContent = std.StatusPartialContent
const StatusPaymentRequired = std.StatusPaymentRequired
const StatusPermanentRedirect = std.StatusPermanentRedirect
const StatusPreconditionFailed = std.StatusPreconditionFailed
const StatusPreconditionRequired = std.StatusPreconditionRequired
const StatusProcessing = std.StatusProcessing
const StatusProxyAuthRequired = std.StatusProxyAuthRequired
const StatusRequestEntityTooLarge = std.StatusRequestEntityTooLarge
const StatusRequestHeaderFieldsTooLarge = std.StatusRequestHeaderFieldsTooLarge
const StatusRequestTimeout = std.StatusRequestTimeout
const StatusRequestURITooLong = std.StatusRequestURITooLong
const StatusRequestedRangeNotSatisfiable = std.StatusRequestedRangeNotSatisfiable
const StatusResetContent = std.StatusResetContent
const StatusSeeOther = std.StatusSeeOther
const StatusServiceUnavailable = std.StatusServiceUnavailable
const StatusSwitchingProtocols = std.StatusSwitchingProtocols
const StatusTeapot = std.StatusTeapot
const StatusTemporaryRedirect = std.StatusTemporaryRedirect

var StatusText = std.StatusText

const StatusTooEarly = std.StatusTooEarly
const StatusTooManyRequests = std.StatusTooManyRequests
const StatusUnauthorized = std.StatusUnauthorized
const StatusUnavailableForLegalReasons = std.StatusUnavailableForLegalReasons
const StatusUnprocessableEntity = std.StatusUnprocessableEntity
const StatusUnsupportedMediaType = std.StatusUnsupportedMediaType
const StatusUpgradeRequired = std.StatusUpgradeRequired
const StatusUseProxy = std.StatusUseProxy
const StatusVariantAlsoNegotiates = std.StatusVariantAlsoNegotiates

var StripPrefix = std.StripPrefix

const TimeFormat = std.TimeFormat

var TimeoutHandler = std.TimeoutHandler

const TrailerPrefix = std.TrailerPrefix
