/* Golden texts and what they mean (reviewed by hand against RFC 3501, 4315,
 * 4551, 5161, 5162, 2177 and the XKEYSYNC extension). */
static const struct { const char *text, *dump; } g_cmds[] = {
    { "A1 CAPABILITY\r\n",
      "CAPA \"A1\" \n" },
    { "a.b]c=d@e;f?g NOOP\r\n",
      "NOOP \"a.b]c=d@e;f?g\" \n" },
    { "tag logout\r\n",
      "LOGOUT \"tag\" \n" },
    { "astring-chars-tag:.}[],<> CHECK\r\n",
      "CHECK \"astring-chars-tag:.}[],<>\" \n" },
    { "t CLOSE\r\n",
      "CLOSE \"t\" \n" },
    { "t EXPUNGE\r\n",
      "EXPUNGE \"t\" \n" },
    { "t UID EXPUNGE 1,2:3\r\n",
      "EXPUNGE \"t\" 1:1,2:3\n" },
    { "t UNSELECT\r\n",
      "UNSELECT \"t\" \n" },
    { "t STARTTLS\r\n",
      "STARTTLS \"t\" \n" },
    { "t LOGIN asdf p=w@x;y?z\r\n",
      "LOGIN \"t\" \"asdf\" \"p=w@x;y?z\"\n" },
    { "t LOGIN \"as\\\"d\\\\f\" \"pass phrase\"\r\n",
      "LOGIN \"t\" \"as\\22d\\5cf\" \"pass phrase\"\n" },
    { "t LOGIN {4}\r\nasdf {11}\r\npass phrase\r\n",
      "PLUS_REQ NIL NIL\nPLUS_REQ NIL NIL\nLOGIN \"t\" \"asdf\" \"pass phrase\"\n" },
    { "t LOGIN {0}\r\n \"\"\r\n",
      "PLUS_REQ NIL NIL\nLOGIN \"t\" \"\" \"\"\n" },
    { "t LOGIN NIL nil\r\n",
      "LOGIN \"t\" \"NIL\" \"nil\"\n" },
    { "t AUTHENTICATE PLAIN\r\nAHVzcgBwd2Q=\r\n",
      "PLUS_REQ NIL \"UGxhaW46\"\nLOGIN \"t\" \"usr\" \"pwd\"\n" },
    { "t AUTHENTICATE PLAIN\r\ndXNyAHVzcgBwd2Q=\r\n",
      "PLUS_REQ NIL \"UGxhaW46\"\nLOGIN \"t\" \"usr\" \"pwd\"\n" },
    { "t AUTHENTICATE PLAIN\r\nbWFsbG9yeQB1c3IAcHdk\r\n",
      "PLUS_REQ NIL \"UGxhaW46\"\nERROR \"t\" msg\n" },
    { "t AUTHENTICATE LOGIN\r\ndXNy\r\ncHdk\r\n",
      "PLUS_REQ NIL \"VXNlcm5hbWU6\"\nPLUS_REQ NIL \"UGFzc3dvcmQ6\"\nLOGIN \"t\" \"usr\" \"pwd\"\n" },
    { "t SELECT inbox\r\n",
      "SELECT \"t\" INBOX\n" },
    { "t SELECT \"INbox\" (CONDSTORE)\r\n",
      "SELECT \"t\" INBOX condstore\n" },
    { "t SELECT INBOX/x (QRESYNC (67890007 90060115194045000))\r\n",
      "SELECT \"t\" \"INBOX/x\" qresync 67890007 90060115194045000 noset noset noset\n" },
    { "t EXAMINE {10}\r\nexamine_me (QRESYNC (7 9 1:5,41,43:116) CONDSTORE)\r\n",
      "PLUS_REQ NIL NIL\nEXAMINE \"t\" \"examine_me\" qresync 7 9 1:5,41:41,43:116 noset noset condstore\n" },
    { "t SELECT b (QRESYNC (67890007 90060115194045000 41,43:211,214:541 (1:5 6:10)))\r\n",
      "SELECT \"t\" \"b\" qresync 67890007 90060115194045000 41:41,43:211,214:541 1:5 6:10\n" },
    { "t CREATE \"a/b c\"\r\n",
      "CREATE \"t\" \"a/b c\"\n" },
    { "t DELETE INBOXes\r\n",
      "DELETE \"t\" \"INBOXes\"\n" },
    { "t RENAME old_name \"new name\"\r\n",
      "RENAME \"t\" \"old_name\" \"new name\"\n" },
    { "t SUBSCRIBE a]\r\n",
      "SUB \"t\" \"a]\"\n" },
    { "t UNSUBSCRIBE unsubscribe_me\r\n",
      "UNSUB \"t\" \"unsubscribe_me\"\n" },
    { "t LIST \"\" *\r\n",
      "LIST \"t\" \"\" \"*\"\n" },
    { "t LIST \"\" \"%/x\"\r\n",
      "LIST \"t\" \"\" \"%/x\"\n" },
    { "t LIST #news. a]%.*\r\n",
      "LIST \"t\" \"#news.\" \"a]%.*\"\n" },
    { "t LSUB \"\" {1}\r\n*\r\n",
      "PLUS_REQ NIL NIL\nLSUB \"t\" \"\" \"*\"\n" },
    { "t STATUS inbox (MESSAGES RECENT UIDNEXT UIDVALIDITY UNSEEN HIGHESTMODSEQ)\r\n",
      "STATUS \"t\" INBOX 63\n" },
    { "t STATUS {1}\r\nb (unseen)\r\n",
      "PLUS_REQ NIL NIL\nSTATUS \"t\" \"b\" 16\n" },
    { "t APPEND inbox {11}\r\nhello world\r\n",
      "PLUS_REQ NIL NIL\nAPPEND \"t\" INBOX kw() ext()  \"hello world\"\n" },
    { "t APPEND \"in box\" (\\Seen kw \\Foo $MDN) {4}\r\na\r\nb\r\n",
      "PLUS_REQ NIL NIL\nAPPEND \"t\" \"in box\" seen kw(\"kw\" \"$MDN\") ext(\"Foo\")  \"a\\0d\\0ab\"\n" },
    { "t APPEND inbox (\\Answered \\Flagged \\Deleted \\Draft) \"11-jan-2022 00:11:22 +5000\" {0}\r\n\r\n",
      "PLUS_REQ NIL NIL\nAPPEND \"t\" INBOX ans flg del draft kw() ext() 2022-1-11T0:11:22Z50:0 \"\"\n" },
    { "t APPEND inbox \" 1-Jul-2022 23:59:59 -0130\" {1}\r\n\"\r\n",
      "PLUS_REQ NIL NIL\nAPPEND \"t\" INBOX kw() ext() 2022-7-1T23:59:59Z-1:30 \"\\22\"\n" },
    { "t SEARCH ALL\r\n",
      "SEARCH \"t\" 0 NIL ALL\n" },
    { "t UID SEARCH CHARSET UTF-8 UNSEEN\r\n",
      "SEARCH \"t\" 1 \"UTF-8\" UNSEEN\n" },
    { "t SEARCH ANSWERED DELETED FLAGGED NEW OLD RECENT SEEN\r\n",
      "SEARCH \"t\" 0 NIL ANSWERED & DELETED & FLAGGED & NEW & OLD & RECENT & SEEN\n" },
    { "t SEARCH UNANSWERED UNDELETED UNFLAGGED UNSEEN DRAFT UNDRAFT\r\n",
      "SEARCH \"t\" 0 NIL UNANSWERED & UNDELETED & UNFLAGGED & UNSEEN & DRAFT & UNDRAFT\n" },
    { "t SEARCH SUBJECT a BCC \"b c\" BODY {1}\r\nc CC d FROM e TEXT f TO g\r\n",
      "PLUS_REQ NIL NIL\nSEARCH \"t\" 0 NIL SUBJECT \"a\" & BCC \"b c\" & BODY \"c\" & CC \"d\" & FROM \"e\" & TEXT \"f\" & TO \"g\"\n" },
    { "t SEARCH KEYWORD $a UNKEYWORD b HEADER x-y \"\"\r\n",
      "SEARCH \"t\" 0 NIL KEYWORD \"$a\" & UNKEYWORD \"b\" & HEADER \"x-y\" \"\"\n" },
    { "t SEARCH BEFORE 1-jan-1999 ON 28-Feb-2000 SINCE \"01-mar-2001\"\r\n",
      "SEARCH \"t\" 0 NIL BEFORE 1999-1-1T0:0:0Z0:0 & ON 2000-2-28T0:0:0Z0:0 & SINCE 2001-3-1T0:0:0Z0:0\n" },
    { "t SEARCH SENTBEFORE 31-dec-1000 SENTON 5-Nov-9999 SENTSINCE 10-oct-2010\r\n",
      "SEARCH \"t\" 0 NIL SENTBEFORE 1000-12-31T0:0:0Z0:0 & SENTON 9999-11-5T0:0:0Z0:0 & SENTSINCE 2010-10-10T0:0:0Z0:0\n" },
    { "t SEARCH LARGER 4294967295 SMALLER 0 UID *:* 1,3:5\r\n",
      "SEARCH \"t\" 0 NIL LARGER 4294967295 & SMALLER 0 & UID 0:0 & SEQ 1:1,3:5\n" },
    { "t SEARCH NOT SEEN OR (ALL DRAFT) NOT (1:* OR NEW OLD) UID 7\r\n",
      "SEARCH \"t\" 0 NIL NOT(SEEN) & OR(GROUP(ALL & DRAFT)|NOT(GROUP(SEQ 1:0 & OR(NEW|OLD)))) & UID 7:7\n" },
    { "t SEARCH MODSEQ 620162338\r\n",
      "SEARCH \"t\" 0 NIL MODSEQ 620162338\n" },
    { "t SEARCH MODSEQ \"/flags/\\\\draft\" all 620162338\r\n",
      "SEARCH \"t\" 0 NIL MODSEQ \"/flags/\\5cdraft\" 2 620162338\n" },
    { "t FETCH 1,2:3,4 INTERNALDATE\r\n",
      "FETCH \"t\" 0 1:1,2:3,4:4 {date }\n" },
    { "t FETCH * ALL\r\n",
      "FETCH \"t\" 0 0:0 {env flags date size }\n" },
    { "t FETCH *:1 fast\r\n",
      "FETCH \"t\" 0 0:1 {flags date size }\n" },
    { "t UID FETCH 1 FULL\r\n",
      "FETCH \"t\" 1 1:1 {env flags date size body }\n" },
    { "t FETCH 1 (ENVELOPE FLAGS INTERNALDATE UID RFC822 RFC822.HEADER RFC822.SIZE RFC822.TEXT BODY BODYSTRUCTURE MODSEQ)\r\n",
      "FETCH \"t\" 0 1:1 {env flags date uid rfc822 hdr size text body struct modseq }\n" },
    { "t FETCH 1 BODY[]\r\n",
      "FETCH \"t\" 0 1:1 {B[] }\n" },
    { "t FETCH 1 (BODY.PEEK[]<0.1> BODY[TEXT] BODY[HEADER]<5.4294967295>)\r\n",
      "FETCH \"t\" 0 1:1 {PEEK[]<0.1> B[TEXT] B[HEADER]<5.4294967295> }\n" },
    { "t FETCH 1 (BODY[1.2.MIME] BODY.PEEK[3] BODY[4.HEADER.FIELDS (To {2}\r\nCc \"from\")] BODY[HEADER.FIELDS.NOT (x)])\r\n",
      "PLUS_REQ NIL NIL\nFETCH \"t\" 0 1:1 {B[1.2.MIME] PEEK[3.] B[4.FIELDS(\"To\" \"Cc\" \"from\")] B[NOTFIELDS(\"x\")] }\n" },
    { "t UID FETCH 1:* (FLAGS) (CHANGEDSINCE 12345 VANISHED)\r\n",
      "FETCH \"t\" 1 1:0 {flags } chgsince 12345 vanished\n" },
    { "t FETCH 1 (UID) (CHANGEDSINCE 9223372036854775807)\r\n",
      "FETCH \"t\" 0 1:1 {uid } chgsince 9223372036854775807\n" },
    { "t STORE 1 FLAGS \\Seen\r\n",
      "STORE \"t\" 0 1:1 0 0 seen kw() ext()\n" },
    { "t UID STORE 1:*,5 +FLAGS.SILENT (\\Deleted kw \\Ext)\r\n",
      "STORE \"t\" 1 1:0,5:5 1 1 del kw(\"kw\") ext(\"Ext\")\n" },
    { "t STORE 2 -FLAGS ()\r\n",
      "STORE \"t\" 0 2:2 -1 0 kw() ext()\n" },
    { "t STORE 2 (UNCHANGEDSINCE 0) FLAGS (\\Answered \\Flagged \\Draft)\r\n",
      "STORE \"t\" 0 2:2 unchgsince 0 0 0 ans flg draft kw() ext()\n" },
    { "t COPY 5:* iNBOx\r\n",
      "COPY \"t\" 0 5:0 INBOX\n" },
    { "t UID COPY 5:7 \"NIL\"\r\n",
      "COPY \"t\" 1 5:7 \"NIL\"\n" },
    { "t ENABLE CONDSTORE QRESYNC x-y\r\n",
      "ENABLE \"t\" (\"CONDSTORE\" \"QRESYNC\" \"x-y\")\n" },
    { "t IDLE\r\nDONE\r\n",
      "IDLE \"t\" \nIDLE_DONE NIL ok\n" },
    { "t XKEYSYNC\r\nDONE\r\n",
      "XKEYSYNC \"t\" ()\nXKEYSYNC_DONE NIL \"t\"\n" },
    { "t XKEYSYNC ab cd 0123456789abcdef\r\ndone\r\n",
      "XKEYSYNC \"t\" (\"ab\" \"cd\" \"0123456789abcdef\")\nXKEYSYNC_DONE NIL \"t\"\n" },
    { "t XKEYADD {7}\r\na\r\nb\r\nc\r\n",
      "PLUS_REQ NIL NIL\nXKEYADD \"t\" \"a\\0d\\0ab\\0d\\0ac\"\n" },
    { "t SELECT inbox.x\r\n",
      "SELECT \"t\" \"inbox.x\"\n" },
    { "t CREATE INBOX1\r\n",
      "CREATE \"t\" \"INBOX1\"\n" },
    { "t DELETE INBOX-[a]\r\n",
      "DELETE \"t\" \"INBOX-[a]\"\n" },
    { "t COPY 1 InBoX/a\r\n",
      "COPY \"t\" 0 1:1 \"INBOX/a\"\n" },
    { "t LOGIN INBOX.a inbox\r\n",
      "LOGIN \"t\" \"INBOX.a\" \"inbox\"\n" },
    { "t LIST inbox. INBOX%\r\n",
      "LIST \"t\" \"inbox.\" \"INBOX%\"\n" },
};
static const struct { const char *text, *dump; } g_resps[] = {
    { "* OK text\r\n",
      "ST NIL 0 nocode \"text\"\n" },
    { "* NO [ALERT] x=y @ ; ? {3}\r\n",
      "ST NIL 1 [ALERT] \"x=y @ ; ? {3}\"\n" },
    { "* BAD it's \"quoted\r\n",
      "ST NIL 2 nocode \"it's \\22quoted\"\n" },
    { "* BYE see you\r\n",
      "ST NIL 4 nocode \"see you\"\n" },
    { "* PREAUTH hi there\r\n",
      "ST NIL 3 nocode \"hi there\"\n" },
    { "tag OK done\r\n",
      "ST \"tag\" 0 nocode \"done\"\n" },
    { "a]b=c NO [TRYCREATE] no [brackets]\r\n",
      "ST \"a]b=c\" 1 [TRYCREATE] \"no [brackets]\"\n" },
    { "* OK [READ-ONLY] hi\r\n",
      "ST NIL 0 [RO] \"hi\"\n" },
    { "* OK [read-write] hi\r\n",
      "ST NIL 0 [RW] \"hi\"\n" },
    { "* OK [PARSE] hi\r\n",
      "ST NIL 0 [PARSE] \"hi\"\n" },
    { "* OK [UIDNEXT 4294967295] hi\r\n",
      "ST NIL 0 [UIDNEXT 4294967295] \"hi\"\n" },
    { "* OK [UIDVALIDITY 1] hi\r\n",
      "ST NIL 0 [UIDVLD 1] \"hi\"\n" },
    { "* OK [UNSEEN 17] hi\r\n",
      "ST NIL 0 [UNSEEN 17] \"hi\"\n" },
    { "* OK [PERMANENTFLAGS ()] hi\r\n",
      "ST NIL 0 [PERMFLAGS kw() ext()] \"hi\"\n" },
    { "* OK [PERMANENTFLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft kw \\Ext \\*)] hi\r\n",
      "ST NIL 0 [PERMFLAGS ans flg del seen draft kw(\"kw\") ext(\"Ext\") *] \"hi\"\n" },
    { "* OK [CAPABILITY IMAP4rev1 AUTH=PLAIN x] hi\r\n",
      "ST NIL 0 [CAPA(\"IMAP4rev1\" \"AUTH=PLAIN\" \"x\")] \"hi\"\n" },
    { "* OK [badcharset] hi\r\n",
      "ST NIL 0 [ATOM \"badcharset\" NIL] \"hi\"\n" },
    { "* OK [UNKNOWN-CTE some text (here) \"x] hi\r\n",
      "ST NIL 0 [ATOM \"UNKNOWN-CTE\" \"some text (here) \\22x\"] \"hi\"\n" },
    { "* OK [UIDNOTSTICKY] hi\r\n",
      "ST NIL 0 [UIDNOSTICK] \"hi\"\n" },
    { "t OK [APPENDUID 38505 3955] done\r\n",
      "ST \"t\" 0 [APPENDUID 38505 3955] \"done\"\n" },
    { "t OK [COPYUID 38505 304,319:320 3956:3958] done\r\n",
      "ST \"t\" 0 [COPYUID 38505 304:304,319:320 3956:3958] \"done\"\n" },
    { "* OK [NOMODSEQ] hi\r\n",
      "ST NIL 0 [NOMODSEQ] \"hi\"\n" },
    { "* OK [HIGHESTMODSEQ 9223372036854775807] hi\r\n",
      "ST NIL 0 [HIMODSEQ 9223372036854775807] \"hi\"\n" },
    { "t OK [MODIFIED 7,9:12] done\r\n",
      "ST \"t\" 0 [MODIFIED 7:7,9:12] \"done\"\n" },
    { "* OK [CLOSED] hi\r\n",
      "ST NIL 0 [CLOSED] \"hi\"\n" },
    { "+ go on\r\n",
      "PLUS nocode \"go on\"\n" },
    { "+ [ALERT] go on\r\n",
      "PLUS [ALERT] \"go on\"\n" },
    { "* CAPABILITY IMAP4rev1 AUTH=PLAIN LITERAL+ ID=x\r\n",
      "CAPA (\"IMAP4rev1\" \"AUTH=PLAIN\" \"LITERAL+\" \"ID=x\")\n" },
    { "* ENABLED CONDSTORE QRESYNC\r\n",
      "ENABLED (\"CONDSTORE\" \"QRESYNC\")\n" },
    { "* LIST () \"/\" inbox\r\n",
      "LIST sel0 () 2f INBOX\n" },
    { "* LIST (\\Noselect \\Ext) \"\\\\\" \"a b\"\r\n",
      "LIST sel8 (\"Ext\") 5c \"a b\"\n" },
    { "* LIST (\\Marked) \"\\\"\" {3}\r\na\r\n\r\n",
      "LIST sel9 () 22 \"a\\0d\\0a\"\n" },
    { "* LIST (\\Unmarked \\Noinferiors) NIL NIL\r\n",
      "LIST noinf sel10 () 00 \"NIL\"\n" },
    { "* LSUB (\\NoInferiors) \".\" INBOX.x]y\r\n",
      "LSUB noinf sel0 () 2e \"INBOX.x]y\"\n" },
    { "* STATUS inbox ()\r\n",
      "STATUS INBOX 0\n" },
    { "* STATUS \"in\\\"box\" (MESSAGES 0 RECENT 1 UIDNEXT 2 UIDVALIDITY 3 UNSEEN 4294967295 HIGHESTMODSEQ 0)\r\n",
      "STATUS \"in\\22box\" 63 m0 r1 n2 v3 u4294967295 h0\n" },
    { "* FLAGS (\\Seen \\Answered kw \\Extra $MDN)\r\n",
      "FLAGS  ans seen kw(\"kw\" \"$MDN\") ext(\"Extra\")\n" },
    { "* SEARCH\r\n",
      "SEARCH \n" },
    { "* SEARCH 1 4294967295 3\r\n",
      "SEARCH 1 4294967295 3 \n" },
    { "* SEARCH 1 2 (MODSEQ 9223372036854775807)\r\n",
      "SEARCH 1 2 ms9223372036854775807\n" },
    { "* 0 EXISTS\r\n",
      "EXISTS 0\n" },
    { "* 4294967295 RECENT\r\n",
      "RECENT 4294967295\n" },
    { "* 1 EXPUNGE\r\n",
      "EXPUNGE 1\n" },
    { "* VANISHED 1:5,7\r\n",
      "VANISHED 0 1:5,7:7\n" },
    { "* VANISHED (EARLIER) 41,43:116\r\n",
      "VANISHED 1 41:41,43:116\n" },
    { "* 1 FETCH (UID 4294967295)\r\n",
      "FETCH 1 uid4294967295\n" },
    { "* 15 FETCH (FLAGS (\\Seen \\Recent \\Ext kw) UID 1 MODSEQ (5))\r\n",
      "FETCH 15 flags seen kw(\"kw\") ext(\"Ext\") recent uid1 ms5\n" },
    { "* 15 FETCH (FLAGS ())\r\n",
      "FETCH 15 flags kw() ext()\n" },
    { "* 15 FETCH (INTERNALDATE \" 1-May-2020 09:32:24 -0600\")\r\n",
      "FETCH 15 2020-5-1T9:32:24Z-6:0\n" },
    { "* 15 FETCH (RFC822 {8}\r\na\r\n\"b\"\r\n)\r\n",
      "FETCH 15 rfc822 \"a\\0d\\0a\\22b\\22\\0d\\0a\"\n" },
    { "* 15 FETCH (RFC822 NIL)\r\n",
      "FETCH 15 rfc822 \"\"\n" },
    { "* 15 FETCH (UID 983 BODY[] {3}\r\nhi! FLAGS (\\Deleted))\r\n",
      "FETCH 15 flags del kw() ext() uid983 B[]\"hi!\"\n" },
    { "* 15 FETCH (BODY[] \"x\\\\y\\\"z\")\r\n",
      "FETCH 15 B[]\"x\\5cy\\22z\"\n" },
    { "* 15 FETCH (BODY[] \"\" RFC822.SIZE 12)\r\n",
      "FETCH 15 B[]\"\"\n" },
    { "* XKEYSYNC CREATED {3}\r\na\r\n\r\n",
      "XKEYSYNC CREATED \"a\\0d\\0a\"\n" },
    { "* XKEYSYNC DELETED abcdef\r\n",
      "XKEYSYNC DELETED \"abcdef\"\n" },
    { "* XKEYSYNC OK\r\n",
      "XKEYSYNC OK\n" },
};
