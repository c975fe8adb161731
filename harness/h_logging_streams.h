#ifndef H_LOGGING_STREAMS_H
#define H_LOGGING_STREAMS_H
DECLARE_LOG_STREAM(A)
DECLARE_LOG_STREAM(B)
#endif
