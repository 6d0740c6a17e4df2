DEFAULT_NOTE = ('The specification is checked exhaustively within small constants; the code is bound to it by replaying generated '
                'behaviours (deterministic in-process kernel instead of libc socket/epoll/clock calls) and validating every recorded '
                'event with TLC. Trusts the harness kernel to behave like Linux; behaviours never generated are not covered.')
NOTE['C01'] = DEFAULT_NOTE
