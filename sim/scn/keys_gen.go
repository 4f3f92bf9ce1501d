// Code generated by cmd/genkeys. DO NOT EDIT.

package scn

var knownSidh = []knownKey{
	{2, 1, "'\x11\xd7ON\x9d\xc2\x1a\xf8\xe3\xe8<\x17j.j0Th\x14O\xf2\x9a*\xafT\xed\x00", "4B\xbd\x04\xa8X\x99\xbc\xf6l\v\xbd\x1er\x88=\x19\xe9ʨ\xd0Kx\x15.;ə\x12\xe1\x0e\xd7Q 0K\xb3Y>\x1e0\xd2wo\xe5f\xd1H\xdf\xe5\xc4\xf7\x8e\x99\x00\x15\x8f\xe6Ezp@\x98H\xf2\xb4\xb6˄0\x98Ukp\xd5t\xbd\x95\xa3c{}\x80Y\x85\xc8si\x87\x8az\xad߀4\x1d֪X\x19a\x18PZ\xbdD;\xb5\xad\x00\x1d\xc3S\x97\xf8\xc36\xa4\xab\x88~N-\xd9؟\x87\x84\xe6ܲ\xb2\x19\a\u07b8Ѵ\xc13\x9c\x1f8?\xa5\x8cOٗ\xaf\xf2 \x00\xc0$f\xdbYUh\xae\xe9X\xf1\x00v\xef:\xa1\xf7^b\xc28\x1b\x9bM7N+\x8b\x8a59a&\x9cu\xe1\xe8M\n\xc6\xeb\xe0\xea\x8c{\xf0m\xdf\xde2\xa3Vӄ\xa2\x9f\x1c\x9c\xd1m:\xe7\xa2.\xf3[\x00\xa2C\x05h\x89\u05ce\x13\xccyR\x81\xb3\x8f*R\x89\x8ap6\x90\x1a>\xd7\t\xb2\v\xa7;S<\x84\xbfi\xda\xe1\x0e\xffe\xf7\x90\xa4dP\xadX\xcfހ\xfe\xa1\xb4\x9f\xb9\x00\x89\xc5_\xf6\xeb\x02U\xf6\nd\xaa\xf7\x1c(\x93\x12\xb8\x84\xde\xe6\x90ғ+k\x86=\xe0ٺ0y\x1cYɅP\x19}\x0e\x1b[!\xae\xf6{D97\x15\xd3`\x15\xfb\x01", "t\xbe\x8d\xe4\xadX!oQ\x11\x82q\xd3\x1c\xa2̀\xc8\xed\x1dmܒhh\xb8\x18\x90z\x8aq1\xa3\xe9\x1f\x03\xb1\xd0>\x89>\x15\n\x93a\xa7\x86-\xa4\xcd3\x1aq3\x00\x16X\xca]\x8d\xb9:i\xa5\x80U\x1a@!֥\x96\x84zxg\xed(i\xe8I<\x12\xf3\xad\xa4\xf1\xc4\xfc\x1c!g\xc5\xc1\x1d\xb3'\xb7 \xb1H\xeb\x04\xd0-\xc1\x89\xf9q\x00", ""},
	{2, 2, "\xec\xe0\x14=\xeb\x88\xeaE%\xa2\x10~\n\xad\x96\x947\xf2Ƈ\f\x9f\x06\x14\x1e?\x03\x01", "\x92\xa3\xbe\xa9\xa6\x04\xc6a\xec\x9f1\x81|\x11\x13\xd5\xed\xb01t^f\xa6+\x15=\xc5I\x11M`\xef\x03\x8d\x92\xf5\x9d\x0f\xa4\xe1S\xd8\x16\xbdg\x85\x88\xbc\x86j\x1bR 1\x00\x95\x86*w\xf6V\xdbB\xda\xc3\xc6\xc2M\xdd)\xf5\xffe\x9bO\x92Jm\x8f\xaf\xe3\x87\xce\v_/2D\xf9\U0003792c\xd0\xc4}x\xe5\xcbȧE\xea(\x82\xb8!k\xf3\x00\xa9\xae\xd5\xd4\xcao9\x9a\xb0\x18\xda#/sP00Oג\x9a=a\xe1z$v\x16\xda\xf3\x8e\xfby\x88u\x84\xd0&\xe2\xb7k\xb3\x01\xfeh\xaf\x9b%\x9f\xf8\xd9\xc5\x11\xf3\x00\xa3\xbe\xce_\xb5o\xe4\x96\x11\xf1\x01n\xf1\xe5??\xb57\xc0<\x89L\xd9\xd5\xd3\xf3\x8e\xec\x95\xdf>_\xbb\x00x\x92G\xed\xbb\xe2 \xeb\xe7c\a\xb7=J\xe5C\x88\xf2\x13M\x01\x95,3.\xab\xb61jm\xff&a\xf7\x80OQ%mF\x8f\xf2\xf3\x02\x15\x89\xed\xab_\x8f\xa5\xc4#5\x84\xbew\x0e\x01[\xc55\x13\x02\xcc7\xf3~\xaa\x84\x01b&!\x8c\x00F\xf9_\xf1\xb0\xea#\x98\x92\xba<>̨\xd6\v~8/ѯ\xf7P¥$ʨ;Q\xa4E\xe8u\x14ΫA\x9d_\x01\\\xc6\x10\x01 /\x90\a\n\xbb\xd4@\x05\x01", "t\xbe\x8d\xe4\xadX!oQ\x11\x82q\xd3\x1c\xa2̀\xc8\xed\x1dmܒhh\xb8\x18\x90z\x8aq1\xa3\xe9\x1f\x03\xb1\xd0>\x89>\x15\n\x93a\xa7\x86-\xa4\xcd3\x1aq3\x00\x16X\xca]\x8d\xb9:i\xa5\x80U\x1a@!֥\x96\x84zxg\xed(i\xe8I<\x12\xf3\xad\xa4\xf1\xc4\xfc\x1c!g\xc5\xc1\x1d\xb3'\xb7 \xb1H\xeb\x04\xd0-\xc1\x89\xf9q\x00", ""},
	{2, 6, "\xf0\x06\x8d\xa71y9\x12\x05u\xf3\x0f\x8f\x18J\x048\x1e\x8e\xb23\x14\xb4'P\xbd4柕9NZFg\xc1\x97\xaf__q\xaf\xd4\x01", "\x8ff`\x01\\\xca\xc05{5 \x0e\x01fg\xaf\x89ށ\x94\x82\x9e\xaaO\xc6J\xf0\xd1\xc1eV3\x15\xfb&\xdbC\x9b\x8a\x02`\x01\xe2\xe5\xb9B\xd8\xf5\xff>\n|^\xf5\x01\x8c\x18\x97\xca)\xf0(\xf4\x9f\xb9j\x92Z,\xd7T\x84\t\x84߲\xb0\x92d\xb1\x01#~\xd2\x05\xa9zC*\xeb8I=r\xc5[\x90m\x0f\x98#c>\"sH3M\f\x00\xef\x15{\x03\xf9\\\xd2\xf9\xb7\x8b\x1e9\v\x99\xd7kJ\xe5w\x02\r\xf2\xbc\x87j\x8c\x7f\x0f\"\x1d%\u07beN\xa1J\x9c\x1aWW@&@\xa6\x8bf\x8aP\xff\xf2\x9c\f\xe7\x02\x02(\xfdDߛ\xcb\xd2+\x00\xfa\xf5ė{\x0e\x15\x1f\xe1\xd4\x18\xb1\xef\f\xcc\x7f\xb4m\xaa\xef\x12\x0ff\x0e\x1fx/\x8b)\x13\x88Y\xe6d\x99\xebp\x1b\xc9Qw\x15\r\xbcU\x00\x9e\x99\xde\x12V\x9f\xef\xb4\x14\xff_fK\xbe.@Jt\x8f[\xa1\xec|a^P\x1e`\x9f\xdbg&ꇗFJ\xd3\x19[\x81\xb5\\\"<o\x8e\xe9\xa2x2H\x1e\x15\x00\xe7$\xaa+X/WV\x85\x1ck&\xfes\x90,\x93\xb3g\x1b5\xaci\x1f\xbd\x7f\xd99N\xd2\xd1\xcb<\xac\x19\xcfVk\xad\xb3%\xc6\xec\xba\u0383%\xc9\rТ\xcd\xee\xd3\x01", "\xe3k\xa4\x9dov?;\xae\xb4C\xe5\xa1!*\x10", "\xf9\xe3\xc7k\xe8>[\x18\xfd\x1f\x0e<hvϮ\xa2\x91D\xd1\xf9\x93\xdd\x19\xcb9\xa4:\x00FGnt\x04\xf2\x13\xb3\x8c\xee\x8aD\xaah\xd0CN\xbeM\xcc\x15\x9d!\xebv\x00\xe4\x1ffY\xfc\xea\x82%.\xd9\rZ\xcc\x03\xfa\x83J\xf4Z\xdeP'A\x05\x8b\xde3\xbf;\xba\xbbD;\x85\x8dw\x87j\xab\x98\xa4\x15\xeb\x12E\xf4\x1e\x87\xc13\xf5\xb7EE\x00\x12\xd2\xf0\xc2 \xaa\xc8A\xea\xc6\xef\xe5\x18\x01-\xb5;\xcf E\f\xfdi\x84N\xee\"\xeb\xf8\x98\xc6\xc9\t3{$\xf1\x99\xaa\x144\x19e\x17\xe9ؖDp\xfe\x96\xdd\x028\x00\x15/A]\xa1'5\xdcC\\\xa6\x0e\x06\xcf\x19E\xf4> D't't\xe7'\xb6D\xbb\xbc\xb1\x8cU\xfe\x7f8\x01\xbd\xdb\xfc\x00{\x1c\xbe\x8e.\x85\x9d\x87\xe1\f\x954\xec\x00Qy5`\x1a:\xd3z\xc2U\xb3\xffy\x90U\xc2\xea\xae_*Al\xd6\x05\xee\xf5\x92\xed\x05\x91\xa3\xf7\xaa*\xda31x[a\xe9\x9d\xfc4\xfeKq\xa3\xe2\xb3\x02(\xf8\r\x02\xb9U\xc9#\xa7\x04aC\xa5N\x88\f)X\xe8m\xa3\x03\xa2K'\x0e\x93\xbb0\x0f\xf2@\xd5\x02\xcdA^K9?q\xf9\xa1@#\xd62\xc8\xebm\u008b\x96\x9a?G\x02\xab\x01(\fŔ\xb8\x96]\xf4\xaf~^\x85={\xd3\x0e"},
	{2, 1, "I\xa8,*?|9\x9d\fi\xc9\xe5\xfa\x96\xb0T\x1bΡ\x9c\xdfCF\xbd\xbe\x0f\x98\x00", "\xac},d'\xacD\x02\xe4\xd6\xcblz[_1\t\x1aD\xc6\xda\xf7\xb2\r\xd1?I\xce培\xecL\xb2\xb7\x9a\xac\xc3,\xf4\xf5K\xfc\x8d\u07b3\x88\xc2&\xbf\xf7!4b\x00\xae#%\xaa\xe8:\xd4۱\xb9\xcdYb\x978\x9c\xe2\x84\x00\xdcŦK\xff\xf9N]\xdd\x02\x92\x9b\xed\x14*\xb6\x93\xa4\xe1\b\xa8.9\xf2|\xa0m7\x1e\x81\xf8\x17\xb3\xe3\x8d\x01V\xfd&e\xa5T\x9cp|\xabR#\x8b\xdb2:\xe3t\xc8\xe6\xfb\x9a)c\x9d\xaf\xbc\xc0\xc1I\xc0l\xe5\x05\xe3\x10\xa1e,~\xfb\xd5v$Mi\x15)6Epw\x88\xf5\x00\xfe\x04\xd3\x17\x87\xf9Ѵ\xb9\x00<\n\xa9\x1bvD\xa0p\x01\x1c\a{\xee\xe2%\xd8\xd4I\xe9\x9d\xfbo\x90B\xf3H\x9a\U000a3c7fÖ\x97;k\x9f\xe9\xda]\xd0c\xe9\xcb\x00K\xeb\x1cy\xc6\t\x88\x89\x1f<P\xeb\xffN¾N\x17X<\xbf.\xac\"1w1V\x068\xa8\x93Aһ\n\xbcd\x0e\xaf{<9/\xd3\xf2\xc0rGFD\xdcv\x86\x00\xd17\x9b\U0003cf13\xa1c\xa8\xd6\x10\xa5\x88\xc9\v0D}?\xb1\xac\xe2K\xfb%?\xffSc\x1a\xad\xa6\x8a[vr\xf3\xa6\x10a5(6d\xa10V\x12\xc833\xc2\xe8\x01", "\xe3\x1b\xa2 k\x92\xce^\x18\x18\x01,\xa7\xd4U\xc2\x1e\xbd\x93\x96\xde\r-\x92U\xcc~\xf2\x7fr\xcc'\xc9H\xfb\xe4\x9eo\bm\xfe\xd9T\x81\xc3j\x8b\xfd\x94\xe8Z\x03\xf0\xc4\x01J\xc9p\x1b\x050c\xc2{*\xb9\x82V\x06\x9e\xc3-\xc1\xba\xd8\xfd\x8f\xb1cO\f\xec\xb4lM\rǢo\xbf`\xfb\xe9\xfb\xaa'Y\xfc\xf8\x02H\xf0\xab,\x0f$\xcf\xf2+\x02", ""},
	{2, 2, "?P\x96\xad^\xcf\x19b\x1c\xf0\xb6\x89\xe8W6d\xf5\x90ӻ\xb7̉\u05edT\xf3\x01", "T\x122\x80hDq\x9f%\xa8l\x93b֓p\xcfS\x02و\xf8r\f\x1en\xd9h\x06\x0e:\x97E\xa6\xd4?S\x12d~Q\xc8\xf9\xd2\xce\xe6u\xeaؐ\x87\xb7ie\x004U\xb2\xae\xc6PIM\xa2\xefӄ\xdc\xe2\x13ƒ\xfd\x90Xl:\xc0\x1e\xb5G\x1b\xc9\xc9\xcbr{\x98\x1d\x80P\xd74\xc2z-\x16X|}V\xfc\xac|\xd2\xee\ue812\x00\xfe!\xa3\x92\xa7S\xe8\xae`zI\xa4\xe2\x8c\xf8\x9d}\bs\x1d\xdc\x02z\x8b\xb2\b\xc6\x169\xbc\x11\xc0TG\x97Ϭ\xac\x86\xcb&+G\xe7\x81.\xb6t\xfeMHo:\x0f\x02\xdd\x1a\x19\x9fQ\x02!\xe5's\xee\xd5)3w\xa8C\xd9\"\xbb\x01dp+\xdc\xfd\f+*\x94\xe7a\xabB\xdb\x1cل\xacQ\n\xef-\x97w\xd3O\xaf^\x18\xaf\x12lu\x01$̄\xaa\xf6\x9b\x05ۆoB\xae\xca\v\x0f\x11g\xc5<xWٖ&\xb7ӏ\xf6\xe0\x9b\xec\x9d4\n\xc12\xf1\x1d&\x87!\x03\xf9\x81Hy\xb5a\x19AE\xf7\xc7\x18\x01MS\xd3]\xee\x1fS\x9a\\P\xc2\xf0\xe9\xe8\xc64\r(4K\xf2͏\az*~\xff\xd0s\xdboQJ\xff\xf22\xbe\x85\n\xa9\xc9\xcf\xd86\xb3\xf7>\xac\x9b\xa3;\xa59\x01", "\xe3\x1b\xa2 k\x92\xce^\x18\x18\x01,\xa7\xd4U\xc2\x1e\xbd\x93\x96\xde\r-\x92U\xcc~\xf2\x7fr\xcc'\xc9H\xfb\xe4\x9eo\bm\xfe\xd9T\x81\xc3j\x8b\xfd\x94\xe8Z\x03\xf0\xc4\x01J\xc9p\x1b\x050c\xc2{*\xb9\x82V\x06\x9e\xc3-\xc1\xba\xd8\xfd\x8f\xb1cO\f\xec\xb4lM\rǢo\xbf`\xfb\xe9\xfb\xaa'Y\xfc\xf8\x02H\xf0\xab,\x0f$\xcf\xf2+\x02", ""},
	{2, 6, "+\xee\xe1G\xdf\x01\xe4\xa9H\xd2\x00?\x9a\x8e7\xa7\xf2'\x11\xb9\xcb\xe0\x9e\xfcE\x9e (XԼ\x1dO1\xea]䱫\x8f\xbd\x1fE\x01", "\x0e\xa3\x18\xdfn\x93\xb4\";\x8c{\xabq\x82\x17;\x92Tǵ\xcaM\tP\xd6c8ҥ\x1f'\x93\x8f\v\xd1\xf4f\xce\xcfkb0\x1d\xf7TH\x10@v}\x00(\x9bH\x01\x02\x0fy_\x1a@U\x82\xe6\xae-\x02\xca\xc1\xf2'\xb6\xe6\x1b\x9e\x1b):\xea\x11=S\xa8.˃\x99\x169\x8b\xc0{\x9eɟ\x02\xad`\xcc\xdb\xde\x1b\xaa\xbb\x1f\xa7\x8f#\xd5\x01p6\xd1]\x7f^P\x05\xdcI\xe1F\xf0&\x9cF\xc1\x81\xa9\xcd\xe8\xec;TΝKvnˬ\xe4\boY\xf4\xef(\xa4\xcc\x7f~\x0fgg\x7f\xe9\t\xfdX\xf2Kn\x13\x00!\xc6Bo`>\xb9\xac\xe5\xd8\xe9\xb9\x0e/\xe6D\x81>Xw\xd5Ԫ\xff+@\x8a\x92\xf4\x02)/\xb7\xaa\xf4\xc4\xd9m\x14\x99\xa2y'A;\xd8]\xa1\xeb\x89xx\xc3\x14\x02\xd0r\xb5P\xa4\xf5\xe1Bs:6\xea\x12\"'\xf9\xbd\x89}\x9e\b\v?\x92\xc81\x9dz\x03\xae\x06D\xfa\x147@\xcd>\x0e\xd8\xc8\x05\xf8\xb5?\xe0S\xc8\xf7\xfbP8\xb2\x81\x00\xfe\xe0\x8c\a\x8dK\x15\xd80} \xf8m\x8c\x19\x97l_\x1e7\xe3\x88\a\x96[\xf0?\xe4\xf7c\xf9\xf5=s!\x14\xb9@5\x12\xe8lN\xc6~\xea\xf56\xd6HIk\xab\xe7\x00", "\x80g\xa4\x18\xe1\b\x16BNL\xea\xe3\xf5g\xda\x0f", "\xc5(\xc48\xb4~6%H\xbc\x1a\xfb/\xe4\xda;\xb5\xeb\xd4\xdc:\x05^\xa3\x05\x88I;\x1e\xf6\x15>\x0f}\xa1Z*\xf2\xb33\x13i\xa7\xce\xc20+\x1e\x13|[\x1c\xde\b\x01\xac+\xcbI\x8d\x00\x94\xd2\xda*Q\xeb\x96۱&Ӥ\x9e\xab0\xfa(K\x9e/\x9dr-MA\xf7/\xbb\xdbZ^\x83\x02\x9f\xaa\x8b\nDs\xa3\xac\xd6\xc9\xd9'\xca\x10\xc6\x01)BɌ\xb27\xd1\xe0\xfa\xfac{\rpX\xf5\x80\xab\x81F\x89#6\x92\xa0\x93\xf9\x9c\x1f\xb6\xad\xd0Eι\xd5\xd4\xf3.\xf6\xa4\xebq>\xf38\x81r\xa8\xaao\xc0B\x8e\x00\x7f\x8a\xcfŌG\xbd/:\x1ax,\r\x11\x0f\x94\x8dV\xa3\xdddݖ\"\x9fT\xca\xd2X\xaa\x81#\xd0H^b\xc5@\xea[/k\x16\xe5\xd6\xefh\xe6\xf4S=\xc0|\xc1\x01Jf3\xb9\x93)\x9eg\x00L\xf5a\x98)\x90\xf0c\xf8+@j\x91e\xa1\x1c\xfdg\xde\xd68\x18\xe0B)/\xc2\xce\x0e\x9f\x94\xbb\xfe\xb61\x96S?\xfc5\xe8(G\xf9\x8b\x00~\xe5\x7f\xa3\x01+\x1f\xbd\xa4*ǟA\x91M\xbe@\xa1\xf7Z7\x81\xec\x80_\xf9\xc2\xfd\xf4j\xaf\x94qO\xba\xebq\x12\x05Ni\x91\xfc\x01X\x98n\xb3\x84y%3/%\x00w\x89\xbd\xa2X1G\xa2Z\x82\xd1\xf1\xa1l7\xcc"},
	{2, 1, "i\xe8\xec\xfa\x15\x8b\x84iG=\xc6\xc1\xff\xc2\xd5\xf8]\x12t\xf3\xef\rId\xc00\x8e\x00", "J\xc6-\x13\xae'\x8b\xbb\x90\x8au\x01g\xce}C{Ϧ\xe3-i\xe5\xf1\xb2\xbc(\xa6\x8c4ӱ\x83/\xa8}\xf50\xc3\xda[\x9d\x9b\xe6!\xe2]\xb4\xa5\xd7+}5C\x01\xb7\x8ej\x84\a\xa5\x86\x15\x0f\x83\xf5\xa5\x9c\x15\xb4\xb8`Ф\x1c\xb5\xba\x1b\x9c\xb5yӭ\xdb)Sx\x9cY\xad\xa4\xeb#\x94\xb7ʠ\xfc\xde\xfd@\xf2\xe9\xdd\xc7\xe0\xa4\xda\xc3\x00\xe2Lz\xbd\xbd.P\xa9\x15\x96\xe0\x06\xf9n\xb5\xa9[\x03\xa4}\xa3\xaa;\xde\xcf\x1c\x9e\xcf`\xad\xa8/\x1cǱׁE\x00SA\xea\xbaE\xef\x15\x99K\x87\x19\x97e\xf5\xd4\x01\xe5<\xdd|\xe2\aJ\xba\n%\xc1\x8dW\xb1\xd5\xe7\x9f\x06\xf3\xd0{\xf9\xfb\xc7\xf5\x8aD\x7f\xb5\xcc*\x05\xf5\b\xd57\xb7:\xd1Ƃ\x8c\xa6?\x95p\x89\xa9\x8f\x19\xa1\xf5\xde\x06\x00\x03$\xd0<\x80\xb2R\xf1\xe3\xd9 \xa1\xa7\xba^DB\xf0^Y\bCC\xd6\xe8\xfc\x06\xd2\xf0V\x14فGҒ\x18\xce\xf1y4j\xd0\xcfҸ\xb9b\xe7\x0e\xa4\xd1.~\x01~5=\xd2\xe5\xe3\x16\x9d4\x06\bn\xe4:\xechV{\x8dO3S\xf1U&â/cԺ\x1d\xc0\x9d\x9b\x9b\x99\xad:\f\xa3\x95\x92\xfb\xe9ᔑ\xdd\xf7\x12\xf2C#\x02", "4)\xc4\x1f\x02\xd1f|R\xd0\x1ac\xf3?Q\x1c\xac\xa6d\x97\fK(i\xaa\xe3\xach;\xf9\x89\xc0Ʉ\x01\x02\xfb\xc9\xce\r\xf88\xff]T\xfa#\x97\xa2\x83\x7f\xe4c\x13\x02\xf6$vc\x99a\fC\x8a;D\xd95V\xce6\xfd\f\xcc,\xd3\nJ/A{\xc1jԖ\xef\x91\x04B\x90\xa0*\xc3\"+W\x99d\xb4\x03\x9bz\x93\xe6\x1fUѨ\x8e\x00", ""},
	{2, 2, "\x10\x12\xb3Z\x89n\x12qo\x8bK\xa12\x1b+\x96\xa0K\xbc\x1eǄ\x13\x8a\xd3?k\x01", "\fNe\x10X٪\xc2\x13f\xb8JL\xfa\xd8\nJ\xa1?\x87\xcd\xef\x04\x02\xa6\xf4E12h\xb0b\xd3!>4\x9c٠x\xc0B\x1b)\xc4)\xe9\xd1xN\xc4\xfc;\xe3\x00z\x961|\x94caE\xed'\xfb\x9c7\t\xdaٟEs\xa6?\x82\xe5\x1dS\xc0`\xe1\xb2G\x18VaSI\xdc\xed\xe2NYM\x9d\x04\x14S!\xfc5\xcc\xeaY\xc7\xde\xf6\x01\xdeUt\x0e\x16O\x80k\xa2\xa8Ե\x97\x01ːI\x00\xb4\xe1C\x9b\xf8d\x1a\xb6V\xf6\x15\x96$\xf7\xe7\xe4\x8aC>&\x04J\xb7N5\xa9\xd0t\xdd\xfdD\x8d0\x17\x12\x96\x01&\xa0\xb9\n\x95\x1b\xb1\xa0\x91\xd42z\t\x13\xf9\x1c\x05<\x0e\x89!\x90\x8a\x14\xbf\xd1\xc6\x1a\x04_\xf3Z\xf77\xa4\x94\xe1\x06y\xa6\x91H\xb2\x01\xf8|\xdc\x01\xa7~MP\xeb{\x01\xc6\xebeN\x86X9\xeep\xa8F\x00\xc0\xdb\xd0A'\x98\xb3j\a\x90\xde\x05\xf2\"S\x04\xfb\x90\xef\xd4\x00\x03W\xf9\x01\xc5\xcag\x81\xa0\xd8\xee\xec_\x0fm\xf5,\xf6\xb4\x8a\x7f\x006z\xcc?\xaf\x8d\x13\xf7\x81\xafD\v\x12\x8a7\xd1\x02\x98\xc59\xb5c\x9dE\x10\x91\x14F\xf5\x87ΰ\xc6-K\xbf\x8aR\x84\f\xcfrr\xa9\bl\vd\xdd\xf7\x9b\xbf=\xc4\x01", "4)\xc4\x1f\x02\xd1f|R\xd0\x1ac\xf3?Q\x1c\xac\xa6d\x97\fK(i\xaa\xe3\xach;\xf9\x89\xc0Ʉ\x01\x02\xfb\xc9\xce\r\xf88\xff]T\xfa#\x97\xa2\x83\x7f\xe4c\x13\x02\xf6$vc\x99a\fC\x8a;D\xd95V\xce6\xfd\f\xcc,\xd3\nJ/A{\xc1jԖ\xef\x91\x04B\x90\xa0*\xc3\"+W\x99d\xb4\x03\x9bz\x93\xe6\x1fUѨ\x8e\x00", ""},
	{2, 6, "\xe1\n\xea\xbaM\x0fl\xd4\xfaf\f\xc5\xf6\xf3V'a+s\xa8\xb4[%\xa5\xa4'\xddz\u008dG?\xa5\xebQV9\xcd\xf7\x99H\xe0^\x01", "\x1aƀ\xb2\x81\xbd\xefU\xba;tPf\xe0\x1b\xa77\x8c\x95Ǎ\x01\x06\xe8\x13,\xe3\xc4\xc119\x9f\xec\xb6z8\xb1\xce\xd6g\xf9\x9f\xc1\xe2\b\x82ҭ\x18\xac\xec2\xb1t\x00\xc1\xf6\x1a\t\x81g\x02\x97\x82:;\x16\xa29ҹ{\x9bS\xd8\xf1\x1a\x82\x10\x06so\xe8\x8b\xf07\xdb\x19\xe9[\x93-\xe1\x867\x8a\xb3\xa9\u009b\x8eX\xf8\xed\xac\xb2P\\m\x00<(?\xfc\xd1c\xd59\x01\xa7\xf6{Y\n\xcdt\xffs&\xc2r\xce\xee/qF.\xb7<Vz\x89/\xb1I\xe3*k\xb1l\n\xac\x03\"\xb8\x9dD\x9b\xafN%\xfeIw\x003\n\x96p\x1d\x06\xb2\x92\xef\xcb\xed\xd5P\xa2>\xf9,\xbcߣk\xa4\xe1c\xd3^\xdeT\xae\xebtI\xa2\xc8Ȓ\xbc\x19\x03p\xa5\x02\xae\xba\xa0~\x17\x93Ebu1\x05\a\x02\xc3u\x101Kn\xd0:o\xc1\x85d՝_\xae\x06\x89Q\xb6 \tC\xf9ec\x01\xf5Z\xf1J\xd0\xeaɾ\xec\"\xe4\x95\x11\xbf8\x9aI\xc6e\xe04\x91\f3#\xcb\x10\x02\xf2e\xf0{k\xd0\xfa:\xa6\x14\x98E/{\x15b\xda\xfbM\x1a,q\xb2\xb0]\xc7m\xc2\x02\xf3c\xeec\xa8\x16j\x10\xd5]\x1b\xe8@\x03<Sz*j3\xd4Mz\x16\xf0\x00", "\xddȘhY\xd3?,\x83\xb2\xbb[\xb22\x83\x15", "\x01\xf1gta\x19\xb2h$\xdd<\xe9M\x95\xbb\xe0\xfaP\x83\xea\xd6,\x10\xac\xf1/\xf1{\xd7\xd2\x06l\xb3Cy-\xfe(a\xccK\xa7\xd8\xe4>[\xb7\xbf\x7f\x82j\xae\x1eo\x01Q\x8d\x96\x96lE<\x8cQL%O|\xe20\x80Ykw\xaf\xc0\xfb\x7f\xb9\xd9\x7f\xbf\x18\xa5\xf4\xb5\xef\x8a\xd9\a\x12;!\x1b\xbb\xf8\xc5.\xd0\x13\xcf\xc8\r\t\xf3R\xbe\v\x87\x01\xe9\x19\xf0\x12Z_jʩ\xb2۟g\xac\xdd\a\xbd\xf0\x94\x87P\x0e?e\x90ӯ[yæ\xef\x1a_\x8e\xc1\x01\xba\x98y\xbc\x87H~\x81\xf3\x19'\"\xa1\xa3\x80b \x02\xa6l\xc8\xf3\xd5\xe6\xf0\xf3\xfeF($\xfd\xa4M\x8dR\xd5J.y^\x7f\xff\x03\xb4\xe9\xaf\xdbpEnLQ\xb7\x1a\xd7^\xe9\x1cn\rw8SW?\xe5*ҧ\xa0\xc1\xb6\x00\xe3\xd4\x0f\x9cL\xe6\xbf\x14\xe0bŷ!\x8d3\xfdǀ\"Q\xba\x1c殖)O'\x89ʲ\xbdT\xa3\t\x028\xbb\xa32\xb1\xda,\x1c\x98\x03\x1c\xe9\x0fʊ(\xa9\x98\x00\x11\xce\xc4\xee\xfe먔{\xcf\xf2\xcc\xe8\xb3\x01\xef=\xe5^\n\xb7vw\x10\x84\xbd\xa3,\x7f\xd7|\xec\xf2\xe7\xa5\xcffф\xa9(\xfa\x99\xc1;4\xc3\x7f\x9f\x95\x17\x1b|\x85\x00\xd6)̦!\xf1M\xe1;\xdd\x04\xb8V\x10\xad\x91"},
	{0, 1, "\xc1\xe3&f\xa3\xab\xf3y\xfa\xc8\xec\x9c\xe7\xef\x8a\xf4dW\xf8\x82\xd9{\x8dnSC\xaa\xe5\xf5\b\x9f\x03", "n\xb0\xfam\\Ӟa\xfd\xaf+\xa6P\xda\xd3\xfa\x03ݍ\x13\xea\x03 or-||\x9f\x1a/a͈\xaa\a:\xe3\x82u\x1a'\xabL\xf0\x01v \xc6XS/7|\xf3ֺ\xf1\x90V\xa0!\v(=\x99W\x9c\xdf\xd3\x15\x8f\xd7{L\xdd\xf8\x1a\xf8i\x95!J;8\x1evM)\x16\x0e\x95\xad\xafl\xaf\x98\x89\xab~\xe7\xec\xb6\b\xdf\x01\xf5?\x04h\xa7^\x9b2B\xa6\xf7\xa9}R\xe4\x8e\n\f\xd7?\x81\xc7d\xe6\xc7F\x05\xf0\xa6\xf1\b8\xdd\xff/'oJQ)V\xaf\xba8+CA)j\xb5\x0e,\xf5\x998P\xed?%*\xa7d.\x94\xbf\x1aҞU;\xc71\xa4^\x1d\xa7\x8bּ\xf9G\xd2<\x19\xd5 \xbd\x99:\xc4Yx[\xdc\xe8z\xc1\xcb\xf7p\xa3\xf1\x83\t\x9eV\xa1\xd3>\xf9X\xab\x18\xf4\x9e\xbf֥\xeb\xecyƠ\x95&\xabYDF\xa9\xd1\xe2\xaf\xf1\r\xcc\xca\t\x97<\xe1\xeb \x7f\xd99\x96\xcba\xf1\xa8*\xb7Ċ\x89\xd1\xd8\xee\x15\xb8\nz \xae#\xbe\xc4D\xa6\xc7D\x14\x8e\x9c\x98\xd42\x88\x98\x10I[\xb7\xd9\xef\x83\xf9\fj\xf7G\xa6\x1a\x12\xa9\x1e\xd1\xcd\xf7\xb8\xb3ۉ\x82[\xbe\xe9=\xe9\x1cd\xfd\xb5\xb16Q7\x9e\x1a9\xae\xf1\x82\xa5W\xa8\x94\x98\\q\xdd`\x95W\xbe\xf0*\x1f\x9cL\xd7\xc7\xd7\xee\xc6\xccO\xfeg\xd4qC\x81X\x0eÑI\x94f4\x927(=\x8a\xfeX \xca\x05", "\xf3&[r%^I\xc4#W\xce\xfe\xa2\x80U\x04\xfd+\xe4\x12OTN\xb8\xc2\x14\x13\x9d\xe4\xe96\x88\xc6\xfa\xb8\xa3\x98\xba\xa3Q#\xe5\x8c\x05\xb0\xaae\xfc\x11֯u\xb8b]F\xeec\x15\xc0\x8c\xf9,\xb8{Z\x87\f\x84\x8b.x\xe8\xe4ê\xc2\xd0}\xf6\xc6\xed47\xb6T\x90\xc5Rm1 \xaa\xab\x9c\xe3U뫍\xea\xfbɆJ:\xd2&\xfa褲\xf6\xe4^fr:t\xf7*--\x86\x86\x13", ""},
	{0, 2, "\xba\x1d\xcf\u0091!C\x11\x1a\xb7Q$\x18\x83\x98q\x84\x18xּК\xa0\xafbe\x98\x97}\xe6\v", "\xe8\xf3ޓ}\x10t\xd3h̻\xaf\xf2\x00/\xadVd\xb9\x89{\xf6\xccg\x8c~q\x97\xed\x11\xb3/\x051\xb7\xefz=܊P\x86\x12\u0096\xff\xdet\x1c\x1af\xd4\xf0Әڴ\xb9\x19\x04\xd6\x7f#)\xfc\x8b|˓W'\t\x8f\xe72\n\x02\xd3($N\xc9Hǰ\xe2\x95U\xc7|\xe2\t\xd1\xd3\xf8^\x16\xa4\x94m\x8cF\xa9j\xc6F6`J\x8f\xff\xd8\v\x10\x8b\xd9\xc9\xc9i\xb4\xbb\x86\x81\xf2E:\x81\xfb\x8d\xba\x80,\xe5\xae/\xef\x9e-J\xd1\u0099\xc5Ƨ@1\x96\xc7\xf0\xf8uPW\xfa\xf1̲&ѻ\xd5L\xa5o\xf2U\xbfD\xa9\x7f\xa7\xa9i\xc2zJnr\x91ž-Eě\x1d\xb92\x93#[\xe5\xf0Tv\xaf\x1c\x87=\xb2\xabV\xb7\xf3\x99\xc0~y*\x1c\x8b\x11>\x03\xdc\xdd\xd1iS\x19G\xb9r\x80j\x95\xc1G\xee>\xe9Y9\x97~\x01\xc5\xd7\x02r\x15\n\xb5ǣY+o\x014\x1a\x7f\bI\xc1w\x16\x03\xb5\x99\xacNI\xf3Pe\xb5\xf5|&\bq\xaf\x98߇\xeb8>]\xf7TrQ\xa4\xdas\xcd%]\x9b#\xd2\xdf\xd6N\xb7\xa1zRH\x0eG\xee\xe9/O]\xafud*V\x10\xa3\xa0\x9f(\x8e\xc1g(\xe1;\xb0'h\x10\xdc\xf6\xb2\x9bПC\x1b\xfbJX!\xa9\xe2\x85\x15\xd19\xb5\v/\xdfƿ<\x04\t\xff\xa2\xb8\xa0\xa3K\xd7`\xe5d\xae\xf7&b\xc7\a\xc6Z\x15$\x02'", "\xf3&[r%^I\xc4#W\xce\xfe\xa2\x80U\x04\xfd+\xe4\x12OTN\xb8\xc2\x14\x13\x9d\xe4\xe96\x88\xc6\xfa\xb8\xa3\x98\xba\xa3Q#\xe5\x8c\x05\xb0\xaae\xfc\x11֯u\xb8b]F\xeec\x15\xc0\x8c\xf9,\xb8{Z\x87\f\x84\x8b.x\xe8\xe4ê\xc2\xd0}\xf6\xc6\xed47\xb6T\x90\xc5Rm1 \xaa\xab\x9c\xe3U뫍\xea\xfbɆJ:\xd2&\xfa褲\xf6\xe4^fr:t\xf7*--\x86\x86\x13", ""},
	{0, 6, "\xcfm\xee\xdfT\xb5\xfaQ\xb1\x1e\x88\xf0\xa4\xe2댑\xf1R\xca\xf3r\xcc\x11\xb7\xd0>\xd2J(A\xe6\xf7b\xc5\x7f\x85n3\n\x15\xb3\xe13\n4T\xb5\xc1\x9d\xf8\x8a\xc3}\xa7\t", "\x8e>\xa1\r\xd32\x14v1\xba\xa7\xc3.\x813\x88Z\xbb\\S\x91\x03\xfa\x84\xbd ,ĉ>\xcb,\x8c\x9a9>\f\xa5k\x0e\x9dZ\x1d\x9b\xe9\xf7!s\x89\xbd\xcea8\x87-\x9e\x13\xa7\x8ek\xa8*/\xeb\xe7\x9f\xf88\x8dG\xf5}\xa3\x119#\xa0.\x16W(\xf4\x94\xdc9=\xac~c\xc4 ϠS\xa9٩B\b\x11\xe2t!\x99\xbf\xa7\x9d\xf8\x06W\x99(]\xaa\xb9\x98\xab{\xce\x14\xc6\xe8\xc4\xc3\xec9\x1fok\x9e\xb7\x0eEf\x9eg9\xdd\xf1h\xcd\xe9\xb3\x0e:SX\x84\x13\xf3\x86\x05P)\"GDN\xc2\xe2?>zʠ\xad&\xaa/8\x192\t\x8a\xb6\xc5p\x84\u070f\xf1N\xadQ\xe0\xae \xd1\x04\xb5\x86\"8ȯ\xda\xc9\xedd\x87\xfa>\xe9@#קO\b\xeb+\xc8K\x18j\xbaWh\xfd\xea\x9e/\x8c[\a&\xf8}S\x95\x1b=\xcdʂ\xff\xeay)\xd6e\r\x8fSX\x06\xf2IbRs\x03\n\fk\xc8\t\x8e\xfc\xad\x11\xfa\xcb\xc5(\xd5P\x94\x93\x18.\x84{\x9cxgr\xa1 \xd7\x05Kz,\xa7\xc0\xc6\xc1dTI\xe7ch\xb7\xbf\x1bm^\x89~\xca\xf3\xed{\r&G|<\x83!\xf188\xb2F\xe0\xb8=5]\xdc \x04\xc2@\xbc\x1b{Z\aTN}\r5\x9eZ\x8c\xec\xcf\xe2\x18l\xac\x18w]\xde9<%\xca\xe3\x97ʠ\xe0\xa1^\x9b\xcc\x1e\x06\xe7\xda\xdfO\x15\x93\xfa\xec\xa2i\xfa\xe1\x16", "\xda&\x18ȳ,\x8b\x13\x02=\x191\xe7\xdfPM\xb4n\xef\xb5B\x80\xd0y", ".\x8bQ\xd8{\x91\x13\x11b\x97\x92\xb9Rъ\x9a\xe92\xbc%\xa7\t\xe28\xa6U\xcfa\x15`\xf0û\xa7\xbe)9F\xd8\xdfX\xf1-vн\xd9᫚v\xd8\fP\xb4\x98[g\xed\x9b\u00a0\x12\xdaK:\r\x9cb&\x0f\xfe#`\xe9\xe3~D\xf46\x9a\xd8)\x84\xd7,\xa2\xa4\x16R\x0f\xee'3\xc6Zo\xe6\xabe\xe1\xce\xf3!:T\xcc\xc1\"ϛ\xc1\xdfk\x1a#\x03\r\xd9&2W'-\x94\x15=\xf0.\x89L#E\x06\xc0\xa3\xfcW\xa3\x7f^!\xfb\xa1\xf9\xb5\xe6\xd6\x04\x17\x81qmCy\xbe/|\xfb\x98cG\xf3\x98\f6\xf1\x98\x1eT\xbak/\x97\xa9\x90CN\xa2t`\x02\x8c\xa1+7{\a\x1ba\x84\xf8V\xac\xfa\xbf!\xc8A\x9f0\x8c\xaa\ty0\\\xf7R\x13/\xe0\x1e\xa6`\xc1\xe6\x96p|=\x94q\x9c-\x9a(\x80|\xee:9\u008f\x9e\xf2\xd1\xf22\xefQD\x069вL\xe6\x82\xe6\x01\x14\x1b\x04\x96k`q\x99ˉ\xaa\xff\x18\xbe\xd5*\xa2<\\P\xfe\xc2\xfc$F\aYp\xf6D\xc9A\x92\x01n̽\a\x88}\xeb\x90\xceZ2MTɬ\xa8b\x82\x0e\xf6\x11\a4c\x18\xb8\x16GE2\"\x87>\x91\xed\xb1\xb8\xe9\xf1\x1d\x0e\x02\xad\x0eh\x88E\xd96?\xa7{\x11'p0\v\xa2\xba|\xb6'I\xda:p\xc8\"\x17e\xdb\xe5pa9\x88\x1f\t^=\x82\xfec\x9a#\x85<\xe1B\x05\xb5\xea:.\xd7[&O+E\x10\xf1qH\x9b>{Q\x10L\xfd\x1e\xba$T\xfe$"},
	{0, 1, "\x1d4\xed_w\xbbo$\x9c\x16\x11i\x93\fn*\xe5\xa6\xe1\x04X\x91A\x0f\x1b\xf7\x06\x1f\x9f\xc1\xf0\x03", "\xb6\xb5\xcb\u05c8\xe3\x83\x11\xad%\xb4w\x93\xea\x86\x14\xc7)\x15\x04\xaf\x14\xfd\x1a'\x06\xe1\x1d c\xcf F\xb9t^B\x1f\r4\b\xb3\x9d\x05*p\xecp\xdb\x10&\x99p_\a8\xaf\x16vQ\x15\xae&\xf7\xf9+\x80z\r3\xd1j\xff_1\x1f\x138F`f\f\b\x0e*\xc7_P\xaa\x9d\xe5Sl\xf31\xed\xf5\a\xa3*$\xbf\f\xdb\U000accb2\x80\xc1\xb0\x1e%rS\x80\x04\x01{\x86Hø\x84m Ig\xed\x8e>\xe0\x8f'Iw\x9a\xc8\xe7q\xad\x8d&\xf6˲\x8b\xa5r\xbf\xfc\xc97Or\xacU\xefK\xc13ƭN1\x1aг\xf2eX\x92\xfbt\x1d\xe2\xf1\xc4Ld\xea\xec\x13\x01[\x1f\xf7!=rR\xeeƏ:$\x83\xa2\xf4\xde@\xdeĐq\xf5\x0f\xc0\ue846\x86\xbal\x86\xd5\x19\x1c\x01\xb0\xb1\x19\xf5\x05\v\x93\x90.0N\xa1\x05\xdf\x05~\xf5\xa2\x90h\xbf\x05}\x18\xc8\x11\x93\xa4n\xf9A\x15\x19bpv\x81\x9e(el^Q\x04\xa2\xe0\t\xec\xd0U\xba\xec\xe7s\xb3Fk\x1fXh:O\xc1u\xbb\xe8\bM\xec\xb4\x10\x12->\xadĠ\xc4Q\xc7A2|\x950\x89e\x05\xdbf\xd3\xc8\xc0\x14\xf8*\x05\xaf\x98\xbb\x81\xaa\xa4E\xfb\v26E\xe7a\xa4\xaf\x04\x04X\x93\x17J\x97\xa6FmN\x11\xdc\xc3\xd7j\xcbyz\xc8\x10m\xdd9\x81\r)\x06\x1db\xa5\x00\xbfKu\xeaeql9\xf4\xb2\xe6p26", "1\x9b߈\x83\x931\xf3-\xd3p\xf9\xc0\xb6қ,\xcb\x1c:~\xc3\xc3I\x06\xb4\xbb`\xb0[\u0590j\xda\x00M\x89}\xdf\x16\vϻ\xae\x8a\xc9&R\x0e\x10z\x95\xf0\xe1\x15c?A9:\xba\x1b<\x92?x\xd8#:\x87\x81\xd9\x06\x99D\xe0zt\xbb:\x94\xdc\xfcM\v\x9f\x9c\xfa\xcf(\xcc\xfe\xe2a\xcaJ\xec\xadlW?\f\xfb\xa9r\xdbX\x99\xfe.\xd7!\xdc\xf8\xd57\xa7]\b\b\x1bI\xd8i\\:", ""},
	{0, 2, "\xc2\v\x83:\xcbGړN\xa0\x9eҥ\x9e\x0e\xd8\x02\xcdx!e\x02\x17$@\xa1A\xf3\x19b\xf9\n", "I\x15_\xe4\xdba\xd0\xc1Ϧ;t\x15\x0fخ\xef\x7f\x99\xf0-\xec|I?\xc5&\xb8\xeb0\x9b\x95\xd9L\xe2\x00\xb7\xab\xa8c\x8a\xde\xf0\xba8\xc9e\xe1#/\x14\x04\xbb\xa0\xe0\x97\x9e\x84܍;\x9e:j\xf1y͌\x85g\x13b\x81\xa9,\x9b\b\x8b3p\xc8E\x91\xe6v\xaa\x0fH\xb8<\x83\xdd\x0e\xdf\xef\xb4\n\x14\xe1 \xe6\xfc\xf3\xe9tT\b\xc1\xe7\xa2\xd7R\xb2\xb1eh\xcb\xda\xd8=\xf5|\xb6\xe6\xed3\xe2\x01\xb9\xbf\x8eߟD\xb1\xa2\xd1\x11\xe0̪\xdbf\x0ed\xb2G\xf1\x1c\x0ePa\x1b\xc9\"\xc3mX[\xb39Ð\xb8D\xcb\xe6\xe7\xecSڿ\xf9\xfaC\xa6\n\x13\v9F\xab\xad,,P!\xf39^\xe7\x02\x956\xad\xb3k\xf7zU\x19z\xf7[\x1e\x03\x86\xc6u(\xc3\xd4<\x89|4\x13\xf8HD\xaeٳ@\x02\xc8\xcb\xe7&\xbaӏ\x00\xd6+\xb1\xe4BUNJL\xa9\xcd\xfbj\x18kv\xaby\x1c\x93\x0e\xb5\xcfX\xa5h2\xf0\x84:0\x85\xd4\xf2cM\\\xbb͜\x81i\x98\xe3\x1b\x1b\xe0\xf6\x1e\xe5\xaf(\xa6\xc9j\x0f\xb0Dք3!\xb4\x91Y\x85\xf9\xc4A\x83\xcd\x14\xfc\x97\x8a\x00@\xeb\x1b\xd4k\x19\xe3n\x94b0\x87\xa8\xa1Q \x9a\xfb\x0eY\xab\xa2\xf6\xadV\x94\x9aXScB\xff\xdd5\xb4\x85H͜_\xbd˽gA\xd7p\x1d'o\xb2\xf3?\xc3\r4\x03d\xdf#$\x1d\xf4\xb4H\x7f\xd2\xd27", "1\x9b߈\x83\x931\xf3-\xd3p\xf9\xc0\xb6қ,\xcb\x1c:~\xc3\xc3I\x06\xb4\xbb`\xb0[\u0590j\xda\x00M\x89}\xdf\x16\vϻ\xae\x8a\xc9&R\x0e\x10z\x95\xf0\xe1\x15c?A9:\xba\x1b<\x92?x\xd8#:\x87\x81\xd9\x06\x99D\xe0zt\xbb:\x94\xdc\xfcM\v\x9f\x9c\xfa\xcf(\xcc\xfe\xe2a\xcaJ\xec\xadlW?\f\xfb\xa9r\xdbX\x99\xfe.\xd7!\xdc\xf8\xd57\xa7]\b\b\x1bI\xd8i\\:", ""},
	{0, 6, "_\xa8|\xa0P\x03VC\x15\\ї\xae-1\xb2\x00\xafJ\xa4\x99N\xd5\xc5\x17Mg\r\x16`\xf7\xe9\xce`La+T\xf8gQ\xa4\xab\x92\x0fh7\xc7t\x8aS\"\x85\x91\xd6\x0e", "`UprSUʺ\x01h%E\x15\x06)=Zɳn\x1fׂ\xd1\xe9*Zq\xfd\xfa !\x8d\xa4\x9b\xe7\x98\xe4\x1aL׳\xd0h7\x99N\xdfX\x98\xfd\xe9T\x90\xa8\r\xc0\xd5*\x0f\x12\xc9\x1dx2\xd7\xf2\x9a{\xe1\t^\xf3\x10o9/\x14\x91\x99&y\xbd[\xf1\x98\x15V48#M\x92\xf1Gl}~{\x9dpP\u058c\x90}!\xc8\r\x9d\x81:\x12\xef\x80&K\xd4\xfd\xadH\xf63\x16L(y|2\xe3\xb9}[\x04j\x88\xbaЋ\x0e`%\x96\"\x11\xe4[\x15ٿ\x06P:.f\x8bR]\xefS\xe3\xf5\xff\xed\x83$A\x06n78\x03\xf0\xf0g\xa6{-\xc6#I\xdc-P\x16\xe5\xefx\x00ޏ9\xf1\x97Z\xb6\x9c\x8eK\xdfh>e'\xce'\xebft\xd6\x03n\xa2\x9ahVHZ\xc3\x17k\x90έ\x1b:Mo{\f~\xa9\x1f(7\x14y(\xb18Lj\x1d\xc2Y\x95w\xecz\xd7\xff\x1bg:\xbd\xa7\xf0&\bB\xe9\x1a\x815\x80\x90ߙ$\xdc6\x02\xc0\xbd\xd7f\xd6\xd5\x03\xa6\x1c\t\xe5V0\xf4\x1bŤ\xf4\x91&\xd5\xe68\x1e,vaGR/\x11\xbe\xe9\x06\x90\xa3\xd6]\x9f\xa5\xd1\xec<Y\xff\xe8e㈆\xb5\x9a\x86\x1eQ(\xc9\xf4M֍\xc9\xde \x9ew\xaa&h\xe5N'4\x1a\xb3Bx2m\xe8h\xcfªé\xff{\x80\x1f\x8e\x8a[\xaf\vO\x8dH\xebG\xf6\xa3\xfa\x84\xe2*", "\xde\x1d\x85\xab\xb6v\x1di}\xcb6\x9f\xf0\xa8x\x13\x9bY\xda\xee\xf1,v\x19", "g\xce\xf2c4\xf6\xa97\n\xa2\x1c}vt\x84\xa3\xd0+\x01Sq\v\xe8`\x0e\xfe\n\x14\xd8\x14\xb6\xb0R:3\xa2K\x02w#hg\xf4\xd6\xdf\xd9 O&\x87\xd0F\xa4\xfeS\xafy\xf9\xe6և]\x12\xbf\xa8\xa5\xb4\xf2\xf0)6\xcby\x94\x11\xb8t\xeb3D\x0e¢XM\x83\xc1Co\x05\xc0\x94\xd1#%\xf3\x1bi\x87\xd9U\xaa7~\f:\\\xd8\x12\x9d#\xd4\xfd)zz,7?3\x8c\xf6\xaf\xb8#\x01D^\xdd\xcd\xe4\xa0C\xaa\x1cR:\x85r\xe1,ԟң\xb2<\xf6ĉ\xf0Ol\x93\xa1y\xc2O\xe9ҙE\x039{h\xa4鎿\x06}\x88\xcbN\x00\xd7ܚ*\xb1\xf9\x05\xcd\xec%\x04;\x1f\x86,\xee\xdeGf\xbe\xe4\x15\xfd\x00\xa8\xdb^ߞ=z?\x9f\xbc\x8er\x12\xf31Z\x95\xf1\x9e҅\x18\x903K\f\xff\xb2\xf8\x05\bOӼ\xce\xc1\xf3 \xeciYX}!\xc6^\xcbɱm\a\x0eR\x17\a\x92c\xf4*e\xf0\xb0/?\a\xfb\xce\"粭y#\xb1\x93n8\xaf\xdd#\x14\tJ\xf8E\xcf\x1eL\xc0\x98\xbe\xa7V9\xe8\xc5/*`\a'\x14\x02OA\xf8\xe6Პ\x12\xee,\x99+ۣO\xb9\xea\xd3\xfa\xb6\xc3xZ\x1d&%\x19\xc8.F\xa9\x9b^\x05MwZs!\xfd\x94N\x13N\x9a\xbe\v\xde9\xedxم\x10\x00k\xf1q\f^\xa91e-\xd72N y\xef\xc9n\x81\x1e!z\xdd\x1e!\t\x88\b\xf7;cM\xbf\xf1t\xaf\xf6\x0e\xc9\xfb\xd4u\x8b\x0f,"},
	{0, 1, "@N\x9a'\xa7U\xbajm \xb3Y\x8d\xa9\xaf\x1d\x80\x98&\xa59\xbc\xb2.Ӭ\xd67g\xb4\xfc\x03", "\xb6\xc6A\xfb\xa6P/n\\X^P4\xff(\xfd\xcd\xe4\xe7\xce\xff\xb6\x00\xbe\xc1\xae\u008d\xa2 xޝ\xb1JB\x9f!o\xa4U#/ \xb40M&\rP\x0f\xb5\f\xb6A\x12\x7f2Ȣ:\xc9#Z\x16blLV\xc5\x12\x93\x90\xb4\x8a\xad\xb9+\x94{`\xd4?\x92\"\x8fJe\xa4\xa7/\x18\xe6\xce\xe2Q\xc9N\x01\x02m'\xb0\xa8\x1e\xafyӣ\x87K!\xc5^\x14\x90\xac\xd6\b\tf<\x9f\x12\b-P3\xcb\x06F\x1b\xfc\xa8\xff\xcf\x11\xa0\xa6\xec\xe0\\\x92Ù\x91S\xb6\xa3J\uea53{\f7h\xd4\xd39\"X{\xff\x80`\x05\x8a\x87슸\xb6\x83\xbf\x1a\xbd\xe2Am\xa4\x93\xa3\xb4}M\xc4C!W=Vt\x15k~\x9cZf\x80\xe7\xe62\xe2\r\x83ᑠ\xa7\xb8\xcd\x15\xb7\r\xcfC\a\x94\xf40\x1cnP\x94\xcb\xe2J\xdfZ/;\x05iw\x89P?.\xa2\xa8\xf4-ؚ{W\xbb\xa9̿+i\xc5\xef'a\xcc:\x9a\xa6\x7f\xe0\xe1\xe6\xceֹ\xb0\bE\xe0\x0e\xb0\x9a\xf4i#\x91\x8eg'\xfe\xdd\xce\xde\x19\x90\x98\xe9\xfa\x93\x91\\\xeem\xb5L\xf1|\x055DG\xf1-\x92\xcf\xd8\xfa\x99 \xc9\xd0\x1aS\xcbw\xb1\xdc\xd2E\xfa\x84a\xf0?>2\xe6\xf2\\Q^\x14c\xcdb\xd1n+\x9a\x1e\xbd\x14\xc1\xbe\xcb$¬\xc1i\xa6x\xdeA\x12\xcf K\x92\xf1\xec\xe5\xc4B\x15\xea\x14\x81z\xa0\xdcZW\xad.", "\x84\xb5õ\xea\xd7\xc0V>\x96(>Y-`\xc0Y\xbf\x1b\x95e\x06\x13pk\xde\t=\x1b%\x98\xba\xd8\x14\xc8\x1cH\x80^1]E\xf6\x19\xa0J\xa4,Z\xe7\xfd\x05\x90\xf1)\xc8ƪ\xed^\xa4\xbf\f\x87\vt\f3ѝP\nӿ\xb1\xae\xa9\x9aO\x84\xf2=\xd0ʴΎ\xa0\v:j\xc23ïN(\xf2\xb7o\x16\x8c\x94o$\x12y\xd5>C\v{HG\x04\xea\x16ڨ\xfa\x0fP\xa0\xf4n\x16", ""},
	{0, 2, ".\xfc\x18~\xc9#߲\x06\xae\xc7\xfd\xc7b\xd5*\x9e\xa9\xda9\xbd\x00C\xde\xf1\xf4\xfe\xb2}O\xde\v", "u\xd44,\xc2O;tP1\x7f5/\xad\x8e\xfc\xb0\x9f\xf5\tv3\xfb\"\xfa\x84\xd7\xe6J\xc7\x10\xcc6\xb7n\xf8\xdf\x17~8`'\n\xc1`\x8c\x8ej\x9a\xcfq7\xfa\xf0\x8e%\xe5\xacW\x00\x83\xe9 F\x8e\xe9\xdaǺ\x89\xb8\xb8\xa7\xa6p\xbe\xfa\x0f\\\xe2\xd8\xc9\x05@\xc1\xa2\x8fF|\x89\xae\xea\xd5\x046Ҟ6f\xad\xe9C\x87/{\xea\xb6|\xb9Tq`Ɵ\xd1K\xff\x9d\x03\xcf\x0e/wRO%3\xc8\xff\xc6h\x99\xebu&\xa2_-\xd6\x10\x18)e\x91R%\x84'\x1f\xc9\x17\xa6z\xef\x1d0V\xb3y\x1a\x84b]\xbbЙC&h\xbbA\x99-ґ3\x81\xe0\xc0WD\xab\\$xm\x9d\x9f?IT\xe9\x7f\xe4\n\xd1\xce_KqK\x8e\xb3\x01\x8a\x04\xfd+\x00\x19\xce+E\x96ԋi\r\xce\xff\xf0\xd7W\x97\xe5\xa3\xe6J\x8c\xec\x18]\x14W\xc0\x12o\xa4N^\xa7\x16\xc9S\xe5\n\x1eH&\xea\x03\x04\xf6\xe2\x02\x9c\xf9\x8fk\x9f\xcc\rӖ\xf1\xd5\xfa\x80\xe7-i\xdf}\x84]\x93\x87\x13\xac1ɶ1\x83\xbe\xeaPb\x8b\"\x873h\xac\xea\xa9\x19M\xb2\xf4\x996\xe8\xcc\xcb\x16\x1d\xd4̏\x11\xad=\xb5\t\x8eP\xa0\xa0,\xaa\x1f<\xff\x00\xec&\xed\xa3\x92k\xccՇ\x12O\x18?A(V*ts\xb7*\xb92\xb9~\xf0 &\xc9\xcc\xe4\xa51\xca\xc9\x00X\xbe\xc4\b.\xecZ\xc5\xe1\x84\x06\x01\xd8\xe5\xecy=", "\x84\xb5õ\xea\xd7\xc0V>\x96(>Y-`\xc0Y\xbf\x1b\x95e\x06\x13pk\xde\t=\x1b%\x98\xba\xd8\x14\xc8\x1cH\x80^1]E\xf6\x19\xa0J\xa4,Z\xe7\xfd\x05\x90\xf1)\xc8ƪ\xed^\xa4\xbf\f\x87\vt\f3ѝP\nӿ\xb1\xae\xa9\x9aO\x84\xf2=\xd0ʴΎ\xa0\v:j\xc23ïN(\xf2\xb7o\x16\x8c\x94o$\x12y\xd5>C\v{HG\x04\xea\x16ڨ\xfa\x0fP\xa0\xf4n\x16", ""},
	{0, 6, "YM\xacH\xb1\xe1\x9a\xeb;\xbc\xfe\x86'\x0f6@\bs\xf6\xa1ٗ\xc6\xe7\x0f\x83\xaa\xa8\xbf\xec\xab(\x0f\xba\x89\x89.\xa0\xa3\xc86\x86\x8d\x02٣q\xdc\x1bG\xe7el\x87O\x0f", "7\x1eeȜ\xc9l\x0f\x8d\x13\xde\xf1\xb0\xd5Nueo\x8a\xa7\x1d\xb0>\x80\x99+\x94\x181.\xf5 \x94*=\x118]\x05^\xeb\x96,D7\xf3\xa2\xa1\x12\x14\x03\x8e\x97\x9e\x90N7\xcdݡ\xe4s\x113:\x97T\fR\n\x1e;\x1bqB\xe1\xe3\x03\xbf<8\xf8O\xae\xd3Q-O\x9d\xfa\x0fx\x82z\x04\x1ew\x9f\xb9\xdc\x1e\xe1\x01F\x96|\x03\xce`\xa7\xab\bV]\x89\xc8n\xd07\x16d\xe1}\xcd\xd2&\as\x17\xe2\xc2\xe4\x8a\xf0~\xed_\xc5i.\"\x94\xeeŶ\x81)ƞ<\xb9\x89\x03\xa62iӐ[\xd0\xe7,\xfc.<\xaf\xd9u\xba\xba\xe4\xcca\xc7\xc0\x11\xe3\xf6fU\x9c\xa0sh#\xee<\xbf\x17J\xb5!` \xaa}\x1e\xe2?\x84RG\xa7\x83\x1aT\xaa\xf9\xbb]U\x9c\xc6\xfde\x7f\x05\xc8H\xb1SY=\xd2\x19\x95\xc9\xe4\xadI\x92\xa3e*\xb40e\xf4\x16?\x86Pj2\xd8?\x1cvޏo\a+RY\fϘj\xf4\x8e\xcb\xf7C\x8b0#k\x8b\x9e\x98\xb6\x15k\xcfx+\xc9<\xfa\x92:\xf26\x83{\xfd\xd5\u0082M@O\x06\xab[\x96\xb7U7J<\x8bҖǿ\xf5\x1fR\x9fk\xdf \"\x98\xbd\xa8Rb5q\x18)\x14e\xdfAJ\x81J\xc8\xfb\x81w\x00\xf4\t\xa3Fí\x9d\xe3`ʡ\xd0\x13ax\x00\b.\x97\xdb\x12\x05\xde\xef2\xc8\x05\x83\x90Hp\xbb\xcfp\xa9\x00\b\xe6\xde\x1c\x943", "\x92\x83\x1b\xc4\xf8S6\x14W\xa3\x97&%T\x8eY\\\xda\xd4\xcb\xd1\xeeO\xd6", "\x8a\u05c8o\xbc\x06Nq\x01*\xa5\x896\xb6\xa4\x88\xdd9\x1d1\xafOx\xa2\x94\x8b/\x12a)\f\x98\x16\x10N\xe7\xd3W8s7hgX\xe6U\n\xe8\x8a\xf6\xea_\xe78\xa6G\xf9p\x97\xcd\x13c\x11\xa4\xe0\x8da\xd5D\xa8\xfaVGtx\x03\x13\xb2Բa\x0e\xcb~nM\vǮ\n`\xcd'B\x86\x96_WZ:\x17p\xda\xfe\xb1\xa5\xbbP\xbe\x93\x16\xb9\x11\xb57^{\xcdp\xb0\xaa\xd9\v\xc9\x17\x1bJ\xd4'\xf4\xd6z)\x97\xa2\x99n\xb8\xc8G\xcbo\xadm\x97\xa1\x10\x8a^\x19y\x05B\xb1\xbf\xe4\xb0q\xdb\x04\b\x06|\xfa\xc1AxMI\xcb\x03J\x14V\xb8<\xc4\xdaZ\xb4\x82fA\xb6b \x97r\v\xbd\x9f\x14@\x00w\xd8\xd7Ƿ\x8eU．X8\xe1A\xaf\x9c\x9f\x12\x8f~\x9e\x13`0.\xdb\xe5d\x99\xa3&\xa9\xa0S\xd8\x13\x8f\xbc\xdf[\xf0,\xe4y-c\xb5\xd48\xc1v\xb6d\xb1dX\x82>(Om\xd0T\x11\xab\xdf\xc1\xa1\xbe{\xa2\xf5\x9d\xad\xb3\xe0YS<\xbd\\\x14>:\xdfa)9=\xf5*D\x17\x94['\xa3\xb3gQ\xf1\a\b\xd6\x19\xe8T\xc2<˫F4\xee&\xd4V(\x8b\x96<\xa3Y\xcaV\xb7(/\xa4\xb5\x95X\x86\x16\x0f\xab\xa7\x11s\x94햚\xb3\x8f\x9dr\xe2DU\xb4\xf7\xf9#+m\xcf\xc4\xc9ɦ!\x81\xe9բC\xeb8A\x04˲\x17\xd7i\x81\xe47\x8e\xabϔ\x19)\xab\x13\xefg\xef?ˇ\rs:\f4Uc\xe5\xbdP&\xa2i\x1b\xa5"},
	{1, 1, "\xd0\xc6P\xab\x00L\x05\x82Z\xcd\xed\x18H\x1b\xd4\x00]\x8c\xf78\xf5M\xc8xv>^\xa47\x93tN\x1b\xec\xaf\xd3`ǰf!\xe7\x18/\xb7X\t", "\xad\xdeX\x88\x1e~[\x9eK\x89_\x05s\xc1w\x11D\x16\xfan\xa3M\xb9\x93?\xe7\xd4z\x05H[R \x1c\x8e\xc1\x80q\x98H\x81\x01f\x19K\xc0%Zl\x9a\x02\xd0,\xd5F\xe5]\xd6؇0\xb1\x0f\xfd\xdf*n\xa0H?\x02B\xaef\xaf\xd4\x00\x9f!Xu\x06\xe5^ʿ\xec\x88\xfd\xe0ݜp\x13C\x14\x97(;[\xf9\xb2Y\xca\n\rRa\x9d\xec\x9bq\x94҉\x17\xe2\xa0e\xac}\xff\bX\x9b\x19CV\xb8\x97\xae\xfc\xec\xd7 b\x89\xce\xc9y\x82O\xf6\x91N\xdf\xca\xf0(R\xc0ET\xaf,\xb0\xb7\xb5os^\xb5A\xd5i\xfa\xd9\x046\a\xd6B\t>\xc5~\xf3\xe4\xbd܌\xb2\xaa;\x1e\xbced\x90\x88D\x8f7\xdf\xe7\x1ff\xfd\x19`.7\xb6\x976\xdd\x12CR\xe2X\x95\xb1\x85\x85\xd6 \x9b\xb1\x1a\x928yf\xda[\x10@\x80\x19i\xc2а\xdef\xbaq\xa5\xa4l\xe2\xed$\xe7\xba\xe7\xfa>\xb8\x05E\xcbS\x9c\xa0\xab\xa5LP\xc0\x85\xa4\xe5>\x98\x8c\aV\x01\x92ɇF*\xcc\xe2\x02B\x12\xdcF\xf4JbF\x98\x0f\a\x87\tT\xb3\xfa\xb7\xc9\xf4\"/Y\xe9\xd3?\x17 V\xd3[/\x042\xa0\x9b\xa4$\xa9\xb6\xe2їE\xaf>K^0\xb5\xa2 \n\xb7\xfdڊݠU{\xbe\x13\x12\xae\xa6CcO(N6\f\x03\xbe\xabt\xe1bx\xe6\xe0j\x01\xe5\xbe3\xa2\xdd\xd8\r\x01\xa3\x18r z\x9df\x9cq\x10C`\xd0{3@\xf7\xc9\x03\xdf\xf7\x8f\x91\xf3\x87\xa1\xecCb\xba-ԉP\xd5\xca\xefc\vj\x82\x9eǯS*D.\xae\x83V\xd8\xdc\xcc\r{K\xa7\x16*\x17\x13ud\xb8-\xaf\xfd\x00\xd6}u\xadut\x84մ\xfe\"\x1c\xf7Vylg~\xad \a\x8b\x86\xab\x82\x84\xbd\xb4EL\x97\b%\xae[3\xef\xfd?\xa6p\xdf\x033o't\xb1\xfaG3\x04\x95\xab`#\xbc\x11\x1e\xb0\x84{\xb1\vL\xa9\xb5\x85\x00c\xa6\x05\x1c\a\x7f\x13\xd1슥y\n\xdc\xde!Fh\x0e\xb4S\x18\x06\xbd\xa0?\x1aL\x11\xfa-w\xb2\xf3\xe5k\xfaZ\xaa\x0eh\x81\xfb\xf8\x10\x8d]}\xb0\xa5\xa5<D\xa4\xee\x80\x1d", "P\xe9:daV\xa2\x8a\xa3\x9a\xe5\xaa\xde\xc1)\xa7a\xe2\xd8\xcb\x7f\x89\x96Aӗ\x17z\x05\x1a\xb1EĹ!\x01\"ԝ\x03\x9fFO\xeb\x952\xdbCZaq\x16\xa0\x1c\xdeu\xb5ŘۖM\xed_\x1b\x86\xb5&\xd7'?D\x03\x85+\x8e\x8b\xb5$\x16\x87\x84\n\xfdl\t\x98\x84D{\xf2\xa8\xd0\x17\xe4\xf7\"B\xfb{W\x9f\xf4\xd0!m\x153\xfa\x98\x06\x7f\xe41m@\xa8\x94\a\xbb\xea\xc3瓓\xcbvB\xed L\xd4A\xa1G\x95GĜ4z\x9c\xf9\xb2\u0096\xa4\xfd\xbf\x8cV:Tn\x19\x18Λ\xc18\xad3N\x1bq\x1c\xb7L\xb5:\xd6\x03\xb6\x00\x88\xf0\xd91\xb0* Q\xc5\x17-\xb2Rc", ""},
	{1, 2, "\xa5U\\\x04\x83\xc3\x1b=ns\xdf\xfb\x84\"\b\x0eѽ\xb4\x9a\x99RA\x88\xac\xd2\xe3>\x8a1\xb2H\x04\x1a:\xe4\xb7u\x9a;\xd8G\x88e\xd9\x7f\x04\x02", "0;\xa1\x13>\xbaP\xa8\t'\x9am\xe6\xbb\xd7\xe3Ȑ\xcb˺\x85O\x1aJ\xf9b\xeb\x19\xc0DV(=\xae\x189\x908\x8e $O\xc70A\x00\x1d\xb7B/*4(\xd1{\xb6s\xc3ΛM\x8f\xa7\xce\xec\xe0l8~\x05\x8f?3A\xba\x1d\xf9\x8b\x89j\x81\x9e\b\x85\x02\x9d\v\xba%\xb6i~Q\x9f\xe8ݧ\x12J\x7fi\xc5s\xa5\xe9\x8b\xdb~\xe0^\x82\xa9\x1b\x84L\xd6\a%Y\n\x15݀\xc5\xc4\xce6M\x16\x038\xc9+\x8bl@\xb1\xa1\x90\x0e\x8f\x01\x8c\r\xb8\x8e\x16\xdfq\xf2\xe3m\xf2\xed\xd9X\xae\x04ྲྀ\x16\x8a\x19Q\xban\x1e\xf0\xa0\x02\xd3\f\xb9\xfd\xdb\xe7\x92͗\xad\xbf\x1aܦzXZ\xd3_>\xb0U\x1c\x1f\x16<tM\xff\xed%\xcc\xef\x05\x80\x03\xbfҌ\xd7\x03\xcc4\x96\xebL\xeeu;\x15Z*Bl\x1bbhJ\xb7\xd3u\xa2\x19\"\xbc]\xff\xb9T\xb1ipo\xb3\x86\x96\x17\xf5E\xcf{\xef5\x1fj\xbc\xaf\x9bM\xaa\xea\xf2\x1d\xed\xd3\xd2]\x92\xafj\x95>\xb9\xf7\x9a\x1b\xdb\xe4wd[\xa1\xb13\x0e\xben\x818V\xde\xd7U\x8c\xc3sA\xa5\x84%_6\xb6|\x05\r\xe0`6R\x87\x88\xc9:^\x954\xdc,\xd1\xdc\fY\xa3\xd6\xfb\x13|1\xfa=\xea\x831\x06+\xe9\xd7#ȩ\xc0\xef@`Y\xd5Rث4ܳ\"\xa2\x0eo\x05\\A\xe5\x11\xc6\n\x11kĶzz\xec\x0eVh\xb3\xf6\xd4\x16\x83\xe0\x18\xd3\xcah\x1a\x98\x01\xbf&L\x83=\f\xdb\xd6\xdf\xf3\xc4dql\xb4'\x89H.\xf6\xdd(\xee\xa1R\x15a#\xc3ܔ9\x93\xe6\xee;\x01L`\x19\xc4\xf5G}\x04v\xc4|\xbf\xd7t\xcb\xce%ѱ\xa1zʌk\xd7\xf1\xb1\xfcu>\x02\xae\x17\xc9\x0f\xf0\xa7\xd8\xe6\x83\xd6A\x15\x17x\xb0\xcc\nT\xda\xfbax\xb6\x91U\x06\x1f\x87\x0e\xba\"\xc9\xceH\x05\x16\x96\xfaG\xc9-f\xe5\xe1ɽ\x19\xed\xaa\x9dRƷ_b^\xd5\xf8\xc682\x96^\xa6\vU\xf9\xb1!\xe5+\xefl-\xb3|o\x7fFP'\xd0\xd1\a>) \x1f\xe2\xbf$z\x18V\xffXҖV\xab\xb3\xb4s\xa3\xda/)", "P\xe9:daV\xa2\x8a\xa3\x9a\xe5\xaa\xde\xc1)\xa7a\xe2\xd8\xcb\x7f\x89\x96Aӗ\x17z\x05\x1a\xb1EĹ!\x01\"ԝ\x03\x9fFO\xeb\x952\xdbCZaq\x16\xa0\x1c\xdeu\xb5ŘۖM\xed_\x1b\x86\xb5&\xd7'?D\x03\x85+\x8e\x8b\xb5$\x16\x87\x84\n\xfdl\t\x98\x84D{\xf2\xa8\xd0\x17\xe4\xf7\"B\xfb{W\x9f\xf4\xd0!m\x153\xfa\x98\x06\x7f\xe41m@\xa8\x94\a\xbb\xea\xc3瓓\xcbvB\xed L\xd4A\xa1G\x95GĜ4z\x9c\xf9\xb2\u0096\xa4\xfd\xbf\x8cV:Tn\x19\x18Λ\xc18\xad3N\x1bq\x1c\xb7L\xb5:\xd6\x03\xb6\x00\x88\xf0\xd91\xb0* Q\xc5\x17-\xb2Rc", ""},
	{1, 6, "q\x8f\xec\xca\xe4z\xbc\x98\xfb\xf5\x81\xa8yk\xf4aqnh\x96\xa7~\xe5\xf7\xd7g8\x7f\x8f\xc1\xe9\x94LHJP{_\xf5D\"k\xf7\xf3\x9b5-+ \x19\xf8\xd3\xc2\b\xcb\xf3\xd0\v\x1a.w\x14\xa9\xccq\x04\xdc\xf1\xa4T\xef\x00\xcb?\xae~\xd2\a\x92\x02", "\xb6\xab\xd2G\xe8\xbaO\x86\x16\xd4E\x91\x9a\t9\xc6\xf3,;\x8f2l[3Ym5\x10A\x91 \xca!!,\xc8cP]\xc4\xe2zȼ][7\x17\x05\x1dWe{\xb2\xb3,w\x91Z\xf3(\x105)\u008c\x10\xa9#\xe3\x1aZ3\x87\x90C\xff\x99\x1ac\xaat\xd8R\xcd\xc8m\x81\xba\x7f\x194;\x00:\x8dڳ\xf8\xb9.A\x00Exd[\xe6\xdcR\xc1\xef]+7\xaa/\xcb\xf3\x89\xc8\x00\xfa!\x94\x869m\xfc\x1a\xf8\x8c94\x86\x1b\x83\xdd{&0A\x17$\x0e;\x8bk\xe6c\xc4kAJ\xf0\x11p)l\xed\x9fF\xf5\xd9h\xf7\xaf\xf6+\x01\xab\xa0ظ+45l\xc2I8\xa3\"\x86\xc5^:O\xc0=\aUj\xf4\xad5\xfe\x05\x18\xf6\xce\xe1\x9bg\xbe7\x0e\t\xc1\x7f_.\xf2HH\xc96\x1a߿\xd8Y\xc2]t\x84\x1d\x03\x9b\xfa\x92\x9d?\xe6{a5\xe5\"g\x06Z\am\x91F\x11^\x1c\x81?kp\x03\x86Y\xe3.\xc3\x13X\xa8$\x81en^\xb4\xd6\xd6o\x01L\xdf#t\xaf\xa6\x18\xb3\xfdJ\xca\xfa\xb9\xa5\x90\x7f~\xb5%\x11~ŀ\xcaQ\xb6W\xabF9J\\D\xd9P\x8d\xb6\x01Q=\x83D\xb1\x13h?\xaf\x9a\xe2\x94d;\xb6\x84\x93\x99\xf7FTy\xfa\xaf\x1cp\xd6\r\xa5/\xf0p\xc9l\x18w\ue82a&\x88aD\x9f\x8eF\x02\xd7\xd0{ٮ\x0f'\x8dnO\x8c\v\xd8ĲT\x93KFu\x04\xdc#坫\xaa(&mZ\xcbj3u\x05\x91j\xbcҐ\x9e\xbd6\xf9P\xa2>\x85\x86\x836\xc60\x19Of<m\xc5#\x89髚\xca6\xc2\xc5ȆK\xf1\xd5\xfc\x1a|FC}Â\xd9\x1a\xc3I\xc3AF8J\xa1X)\n\xc9\xdf\x1a\x1e\xcaI$\xe8\xeb\xcc%\x8c\xa9\xb4:\xb0\x11\x04\x9a\x14\xa4))\\\xe0\x8f_\x94l\xb2\x16f{\xdeA+\x16f\xf0\xe83\xcdA\x16l\xc9Sb\xb8\x9c\x11\xd6\xf1\x10\xa7\v\x86\a\xa9\xb5\v\xf1y,\x02\x9dp\x16\xa5\xaa-÷qJw~\xf0\xa6+\xbcѽ\x06\r\x06\xb9=\x99d=\x84\xe4z닚\v1\xf1\x1c)W\xe3\x11\xe5S\xb8i\xd7\xf1S", "\x00E\xfa\t\xf9\xb0e\x94\xe9\x99\xcc|b\x89\n\xa1\xff\xd2\x0e\xb8W\xa3܂j,\x94\x1c0\x02\xe9W", "\xc0\x89\xed\"1\xc8\x03\xff\vE\x89\x10\xdbW\xfc\x81\xfb\x8c\xc4Y~\n\x01O\xac\xf6\xf8Z\x19:;\xaf\x03\xf9j\x84g\xe26*\xa3\xab\xec\x01\xc6\xcau=\x03\xc5\xff\xb3C*\x9d8f!\x99\xc8T\u00887\xaei\xf3$\x9f\x92\xd3铏\xc87\x8f\xac[\x04\xe8(o\xc2`\xa0g\x1eUa\xb2\x04\xceJ\x98\xb5M\xc7Z\xcbA\x87u\xc1\xfa\xa6\xb2yӎF\xa8\x8bΩR\xf8k\xf25D\xf5FJl\x81_\x17\t\xdfG\xee\x85*\xfb\xe3kF\x19Iw\x1c\xc3\xcde\xe1L\xec>?㱾w\xb8MAc\xd8\x13\x9eO_\x97N\xf0\xe1b\xd9OU\xa98\x1d\xb6\xf7z\x85\x8e\x05\x8d\x0fH?\x9aDYa]\x8aDd3\xaa\xb7\x0e\x0e\xfccԢpY\x8d&\xf2\xe6\x01\xb1()ӡ\x18V\x8c4Ş#\xf5T\xf5q\xd7#f\xe2\xf4\xfd\xa5iCQ3=^\nd\xe3\b\x01\bn\x1d\x93\x7f\xec%\xd3_Be\xc7ð\x9c\xc1\x8d\x92N\x10r\xa2\xda\xd1I\xa7\xb5p2\xafH\x12mn8\xc6vK\xfb[\x03\x85\xb0\x181nYMM0|\xa2N\x13\xf3]@ۻ\x8a\x8c\xc1\xae\x81\xb5\x9a\xe7}\x9e\xec\xd2\r\xc4w\x83X\xf2\xd6ӛ\x7f\x81\a,\xb8}\xa5P\xe9#\r\xd3\x13\x178 \xba\x14\x0e\xbe\x87\x17\xe1@S\xc6\xf2\x0eZ\xaa\xae;\x92'\xaa\xb8\x85JC&\x12\x81\xb1/\x00H\x99\x93\xd0\xc4Z'mNFk\xc0\x8c\x9f(\xf5Km\xbd\xac\xd1\x13lԝ4\xae:\xeb4\x82\x98^:9\xb2\x81\x03\xd4ܝq^\xfb\x1e\x13\x03\r\x1c\xad\xad+\x9eO\xb01\xb3\xb7\x18\u07b7\xc6\xfa\xee\xa8\xc70G\xd2r\x8c \x9c\xf8\xe4\x16\xf1\xf6o\xbf0N\xd3\xe1\x80\x1f\xc1\x02\xa3\xc6@[1\xc1Ԉ \xaft\xbah\xb4,f\xc7\xcc\xe4\xff\x99s\x80\x16\xa5\xfe6\xcc\xf9\xa1\x028\xaed/\xee*\xa4X\x14\xa1\xee[ސ|\xf2_cY\xfc.\xd3k\x8e\x8c{\x8b$֞\xfe\xf6\x92s\x95 \xaa\xc7\xeb\xac\xf9{u\xdeA*\xfa\x88\xd4\x11\xb4ں\xad4\xb1\\\xbf\xe5\x81\xfc\x18\n\xe5\xf9\x9d\x9a&\n\xaa\xd1*\xcd\xfc\x8b\xc1\xa2\x01\xed\xf5h\x1a\xe1'\xeaӡp&\xdb)\x8f\x13\x1cc\xf2\xf1?\xb2\xa3\x97^qY\x9f\xbd<[\xf0V"},
	{1, 1, "R\xa7z\xb7\xc7i\xfb\xbd$ʌ*\x886\xef;\xea@\xba#\xb7\x19Zes\xf1\xb9j\xb6\x18l\x83b\xb7i7\x15\x84\xbf\x90ܹռ\xa1\x81\n", "\x0el\a\x01\xa7H\nx.\xe6\xf6g_ތ)ߒ\xac2\xc5)\xe5s\xea\x8f(i΅\x00m\xb2\xe8.е^\xe5X\x14\xba\x06\xb4\xf8w8@!]S\xb38\xe5A\xf4\x9b+\x1e\x16Ρ.'{Q9ŉ\x86\xee\x04\x85i\xabL\xfd\x85fR\x15\x14%\xa0[\x9b/\x85^\xa2i\x10\x8c\x14\x8d\x14hT\xeb%\x95H휞\xdc\xc6\xf7\xab\xd1\xeb\xf8\x7f!\xdb]\xbc=\x02Xr\x7f_ 8\xd5_\v\xf0\xc0uh\x9e\x8f\xe7ī\xc6\xf1Ms?a\xce)s\xc3\x1b\xa25\x9c\x87\x83\x13P\x01&\xd2\x03\x80;\xb9S\xbc3\xd95\xafw\x81\xc3\xc0\x8f\x1e\xe8\xa3X[T\x12\x8f\xf0[\xceZI\xc0ci݁\x12; \x80y\x98\xa3\xd5\xe56\xbb\xe7\t\x9f\xd3\xe91\x1b\x1c\xc1v-\x83\xe7\f\x97\xde\x11\xfesA\xc1\xb7\x90\xac\x15\xb2_\"*\xa2\xcf\xfb(\xaew\xd3\xe2\xc6a\xf3\xfe\x96Ax\xfcv\xbe\x0e؝\xe6\xe9\xa4\x01\x8b\xda\xdc\xff4\x83|\xef -\xc1n츷F\x83\x0f\x04Z7m\x85\xb1\xf6 \xb3t\xc7(\xcc6\xa7\xa8\xe5Y\xcfE\x98@tKb\x80\x1cыf\xd7MCPŲG\xf9\xd7Z\x88\xeaM\x81J\x1d^ͯ\x1f\x1d!S\xa23{\x7f\xd4\r\xa3\xb7%\xc9\x1f?\xf9\xbe0\x06\x96\x96\xfdo5\x92\xa69\xa7\x0e\xc3\x02\xd1I@fz\xf3Sݗi\x84\xf4\x0fHM\xce\x18\xfd\xff\x03C\x89\x94Z\xced\xbc\vw\t\xe60\x85\x9e\xb1\xb1ͣWy\x99f\xfeu~\xc9\xdd\x7f\x193\xb5\xa3\xc4\xca\nkT\x82Z;\x80\x8b\x11\x9a\xe8\xa7\xe3\xbdk#C|\"͏\x9d\xb9\xe39V\xd6?\xfd\xf7Уu\x88\x1f\u009dT\x81>\x13qU\xe3\xaaK\x98[\xc9_b\x1e\v\xf3\xf39\x88M\x19\xa8+\r\uf150\xcce\x92qr\x93\xbfiװ\xf5\x018p\n}\xad\x1c\xb1\xf0\xde1J\x88=2\x946\xa2D\xb6\xb6\xbeeƅ\xc23\x84\tͺ\x15\x86\xcbI阧\xbf\xfa\xe9.\xb8A\x9b\xe8#\xd7(\xfe\x1f\x88\xf0\x9a\xc1E\x93\xb9O\x1e\xceW\xafX+\x1a:_yߜE\x7f\xf1e\x8b\x94\x05\x1c", "\xf8\x812\xc5_\x88XO\xd2+qk.\xa2\xd2_Y\x8c\xd2\xeeX\xb8\xbc\v\x97=\xcf\xca4}\x84x\xf89\xfbC\x06\xcf݀\xf4\xb5\xe31x\xa0v\xaf\x8a8YT\x12Jb߸\x8c_7\x19\xa8q\xf6\x1c)\"\x85\x00ż;\x940N\x80\xa5dH\xe5(f\x90n\xc4{z\xb6q\xaa\xbf\a\x98U\x98eAc\x14^\xe4u\xbe\xf7|ȟ\xc0\x1eS\x1a`}\x18\x8d\xa0L}\x87\t$K\x11fS\xcb{\x9fE\x1b\xd2\xf8ǢX\xb2\x1c\xa7?\xe2\xba0^\x9a\xc7\xd2\xcd\tuHm\x1c\xe6x3\xbf\xba\x82&\x16\x11}\xda\x19@1\x7f\xef\xa4f\xffUc\xe0Q\x9eȩ\x8e\xa7C\x7fJ\xd5\xc7T\x9aX", ""},
	{1, 2, "x\xdf.\xa9\x8a\xe8{QL\x95\xe1\x05$V/O%\x10]Ok\x89\x8d7\xe9hc\xab\x8a#\xe1;\b_\xa9\x94x\xc0\xb7\x06a\\\x0e\xa5T<\x9e\x02", "9l/e\x1d\xff\xfaI\xbc/\x8d\xe3\x8cA\x05\x14\xf4m\x17\xa2\xf3\xf8\x8e\xf3\xf7\x00\x94\x1f\x01\x0f\x99\x92\x99\to\x06\xb8\xcc.\x89ao\xefI@8D\xedCZ\xc6h\x85\x1dHr}\xbfH\u0fcd\xa4k@š\v\x18\xcf\xe0S5)~\x90E\xf5@\xec\r\xed/\xf7\xf4\xdcg\xf8\xc3\xf2\xee\x9c#\x16\xb1B\xa3\xfb\xcb\xe2\xb9\xea\x01\\~\x7f\x99\x91v\x85x\x82\"\x9b\xbd\xa8\x83\x14L\xd1>ե\xfd\x7f\x11\xf0\xe7\xbd\x1a\xec\x86a\xb7C\xa8d\\\x19,\xfes̪J\xe0AY\xd0b\xcaן\xe0\xc9\x14M\x84\x9c\xfd_\x1b)\xa8\x96%Pr;vߚ\x84TM\xea\xfa\xe0Z\xbe\x9aZ0\xe9\xf0\xf7\x9cd\\;j\xec_\xca\x1b\xadu\xbfG\x90\xc4\xef%f]\xc11b\x10%{o\x0f\xd1Ã*\x87\x0e\xa5܉fj\"\nʱ\xcc\xceD.\r\x1fn^\x00\xe287\xbe\xb45\x99\xa8\xabT9\xa6%[O\x86Y\x9c8v\xee~\x12\xdf\xe9\x8aR\x12\xeb\x1dm\xcdA\x92\xa6[\x17;벞kT\x03(v\xf2\x89'\xc1z\xd0v\xa0:(Qt8\xaa\x1a\xa7\x17_\xf1\x99\x8f!\xf7\xbe\x0e\x11`\x15[\xfb\x8dڜ\xa1?${\x0f\xad\x06\xf4'\x96x\xd8\xea\x82,\x01W\a\x13*\n?\x13`\x11>\xe7\xccH\xe4l\tC\xf6\x9c_rI\x85 \x13\x0e\x11\b\xd5ᤘl ^\xe1\xb0[c\xe9\x0eW<$ؚ\xcf\xc2%\x84(\xf2\xde\xf7^\n\"\x90\xf8\x1daL\x85/d\xb7\x9a\xfab\xc0\xf1\xfdΐR\xafV\xce\xc8[\xe1/\x18?\x10\xf6\x1bx\x17Ą\xa9\xaf\x8f\r\x11\xd7\xce\xfe\xfe\xa3\xed\"\x93p\xc3C\xea51\x04\r+\x10\xbb\xdf\xca)\xa2W3\v\n\x86\x13{X\x9d\x03\xf7\xdb#\xa0\x11U\x19j\x11\x85\xa4\x9e\xf8\xb0\x0f^\x05v&\vP\xbf\x17\xc0>'D\xa0\xa9\x93\xa4\xfd\r\xab\xab%m\xfdk\x02NBQj\x8f\x1f\x81N\nB\xa2\xbf\x8c\aD\x99\xcb\xde7\xf2\xdf\xfd\x1c\x0f\xf08l\xa1\xbc\xbb\xe1\xd2)f\xc7\xfe\x8c\x8f\xf6\xf9A\x98\x98\x1f\x8d\xed\x7f\xe5\xea\xfcMx\x06\xfc\x84\xe1\xce\x1b\x953:\xc4=", "\xf8\x812\xc5_\x88XO\xd2+qk.\xa2\xd2_Y\x8c\xd2\xeeX\xb8\xbc\v\x97=\xcf\xca4}\x84x\xf89\xfbC\x06\xcf݀\xf4\xb5\xe31x\xa0v\xaf\x8a8YT\x12Jb߸\x8c_7\x19\xa8q\xf6\x1c)\"\x85\x00ż;\x940N\x80\xa5dH\xe5(f\x90n\xc4{z\xb6q\xaa\xbf\a\x98U\x98eAc\x14^\xe4u\xbe\xf7|ȟ\xc0\x1eS\x1a`}\x18\x8d\xa0L}\x87\t$K\x11fS\xcb{\x9fE\x1b\xd2\xf8ǢX\xb2\x1c\xa7?\xe2\xba0^\x9a\xc7\xd2\xcd\tuHm\x1c\xe6x3\xbf\xba\x82&\x16\x11}\xda\x19@1\x7f\xef\xa4f\xffUc\xe0Q\x9eȩ\x8e\xa7C\x7fJ\xd5\xc7T\x9aX", ""},
	{1, 6, "\x92\x03(`\xe8\x82\xe6\x99\x01O\xcf\xea킺\xa4p\x84%\xa4\x04\x89\a~5\xf3@Q\xb0\xce:\x18\x83\x02\xab/$\x05\x04\xcb\xfa[6:\xf4F\x9c\x97|\xf1\x8adt\xd8\xef\xdfh\x01\xf3\xaa@Ɂ\xd9\x0eiZ\xda\x00\x16\xf0^!\xe7\x01$\x17\xf0\x96\x02", "䒚m\xeb\x10'n\x8a\xbd\xd64\x11\xe2\xbb\xcd̐\xe7\x8b\x1e+\xcf\xd5x\r\xf4\x10O\x91:ZE\xa0\xed\\Yr\xd2&$\xd1\\\x1d\x83\xb7\x80\x7f\xe7\xea\xc2;\xfa6\xf8\xc9\xd5\xe1\vA%\xd8\xcbi\xc4z\xd5\x06p\bD\xe7\xe48\xac<\aΎK\xaax\xb1f)\x04W\x8cZ\x9e-\xe5\xf3\x1c\xebH\x84\xb6\xa9v\xb5\x19;\xcb\x0e>\xb1\xd6,\xdc\xc6\xdc\xf2\x7f\x89\\\xccdC\x94q\x15\xb8Y\x1b\xf3g\x91\xb9z\x18\x83\x00\n\x85\x0f^\x1bV\x8bg%\x8a\xe0ԗ\xbf\a\x85%\x1c\x15r\xf1\xe5\x1e\x90=Ab\xeb;\x8c\xf8;\xee{5cT\xcep\x80l\xfb|\xa6\xa2.\x92\x80\xf8\x00\x15\xee\xe1\\<Y$;,\x93&\xa7\xf7\x1d߭\x00\xc9\xcdb\x86\xe7\x1a\xa3[\x1beW\xfc\b\x14sdZ\x8fW\x1a\x85\xbd8\xf6\xbd\x85\xdd</V\xf1k^ĭ6\xabV\x82\xe4\vѬQ\xbd\xb7\x88@\xa7C\xb1a\xc1\xb4\x9b\xda\x1a\xa7\x82h\x85\x00\xc4\xfd\xf5\xc0\n\xc0^\xd5n\xdd\x17\xbe7t_\xb1\xe1N}?T^ҁ\xa9\x8a\xa1\x00\x8f\xee\n\xea\xa5\x1bO\xa7L\xad\xdb.\xdac\\\"8\xd1D\xf0O\xfcw\xa7g\xe6\x9f\xe8\xef\x1d,\xefjR\xb8\x925Buמ>\xfb\xe3\x19Gg)\xadvJ\x17\x8b\xcc\x18+\xb3Х\xcfʇ\xa4\x1d\xe0\f\x8dNh\xb3X\xa4yU\x9a'\x12M>\xd4f\x8e\xbb\x83Em\x80\x92ڄ \xf2\xc9P\xecR\xe5\x00\xe2^\x91\x92\x8eV1t\xe5\x96\xf6\xe2\xe4\xf8\xcc\xd3\xd5Ѳ﵏,ς\x93/B\x86T\xd1*-Y\xd0\x12\x890Cx\xee\xa7u\nV\xf4\xf6\xbe\xf9\xff\x1a\xeaG\xa1\x81\x1f{\xcc=RԛT\x9c\x88\x81\\#\xb3.Z\xe0-*A\xaa\xeaN\xe9z\x86\v\x01\x13wuSZv\xbf9\xb1\xd1\v\xfa\x81ÛY\xc4|O\xf1\xb2\x04J\xbd5߽\x1erJ\xb4\xe5dj\x7f\xa9.nd\xbeQ\xb0\x13ͽ\x9b\x1db@\xca\x7f\xa0z\x90ޯ\xdf\x11U\x7f\x10\xb4zѻ\xecUǳ\xb1Y\xce\v\x15\x1a\b\x8b\x103\x92q\xd8\xe7\xf6O\x8d\x93\xbf\xc1\x00*\xf6N", "\xb30<x\xf22a\x80\x13tv\xe9N\xec\x15\x10\x05$&\xb0\xd7V\"z+%\x90s\xab\xac\xf7\xc9", "\r5p1\x9d\x94o\x12\xe8y\xf6\xa8NΜ\x888\xaa\x8b\x01\xd8Bh}8\xae\xd7!\x04\xefP\xaa\xee\x02\x97\x1b\xef,P\xe5\xa6\xf8灙G]\x17\xcdR\x1c;\xe0\xcd\xc1\xdb\xea\nN\xe3\xc1.`_Ԩ\x81\xd9\xe6\xc3\xc6\x1b\xa0\x97\n\xa7x\xa89\xda\xec\xca\x02e\xc9´\xb1\xebL\r\tV\f\xab\x02Ř\\\xc7Ĥ\x82\r\xd5\x01\xa4\x84\x87\xf1,\xf0\x84\xddӀ\xb3M\x17^3\xadP\xa4\xf1\x16\x81R\x01X\x90-\xf9?w\xadZc\x02\xed;\xd9\t=,ؿl\x9d\xeb\xd4k\x8f\xd8\xda\x0e\xd9\ba\x8eL\xc4:ƾ֟\xe2\xd1e \xba\xef\x906\x18\x92ZX\x93~\xc2\xd9\xd51\xe4WimS\xd6\xf2)vw\xe0\xa7t\x1e\x94\x03\x03\x1cY\xe5\xe7\t\xc4G\n.\xc9t\xba\x19Tm\x94\xe6\xc8J\x8d+\x82\xb8\xff\xb6ߊ\xf9\x88\xcd%\xc2\x1c\x15\x19\xff\x97\x18\x9a\x1c\x04oJ!sLQ83I#\xdeDx[\xff\xff\xed!\xe7\x1b1ε\x98f>\x9eHr\x0e\xe4\x87H\xc2n\xe2\xdc\xd90k̤\xac\xb9\x12\xa3\xa66U\x89\xf7\xa3\xfe{@\xc4a'+Ɯ\xceNM|\x11\x8dњ\x13\xb0\xff\xf0X\xc6\xeb\x11\xeb\xf47\xec\xefl\xe5}-.\xd6=\xf8\xf6^\x92\x061\x93i\x1fU \x06\xad\r\xadB\xa9[\x1d'\xb5\xcf\x14\xb8\x8b\"\xeaʏ\xf9\xd0\x7f\x87\xf7\xee\x0e\x8a\xe0ƒ˅\x874\x12x\x87\xc8|\x8e\xc4\xf9\xb0\x9d\xadzvco\xcd\xf8\xa0w\xf6\xb5\x1a~\x027\xdca7?@e!\x05\x05\xcd\rA\xa8\xe5\x18\x98\x8a\xe1\xaf\xc7\xd3\xc0\xb0\xed\x17\x953\xf6\":\xf9Op\xc6;\xb4\x87\x11\xa2FЌ f\x9b\x8emP˫\xa9\xc2e\x8f֬\xbcR\x1b\a\xe8;\xb1iK\xfc7pd\x81\xb9$~\xde\xfc\xbd\xe3\xd1ZS\n\xe81\x8d\xaf\xcaT\x1dC͍p\x1f\x144{\x15\x82\xb5\f@\x9dsM\xd5W\x8bS\xa8#3=q{$וۅ\xeb\x0e\xb8\x87Ή\xb6\\\\l\xa7\xde\xdfBZ\xa1\x03rj\a9ۃ\"\x05)\xb6\xa7@\xfe\xfcݖ`\x1c\xb5\xe1\x8d\xcc\x10/'\x81.y/\xbc\xae\vX;\xd8\xcc/mC\x1d\x1d{\xaaW\x8d\xbe\xf7I\xac\xe4]\xe4\xaf\xdd*`\xfc\x00\x13"},
	{1, 1, "V\x02\x95Q\xb8\xba2A\x9f\xf5\x19xl\xc9X#\x1d\xfc\xba\x05\x05݇E\xed\xc2Ӂ\f\xc8q\xd9\x16Ǵ\xf0\x02\xfb\x97Z\xe5U+c\a[\f", "\n\x93#\x8b\xc7\r\xec#!\x13AzH\xe9\bz\xfaC\xde]\x84`\xb3m\xc2\xe706\xb0i\xc0j:B£v\xa3Ω\x1ah>\"\xbd\x87ώ\x14?\x8d\xd7C\xda\b\xf4C\xd7\xd5\xd8`\xe7\xcdߕ\r\xac\n\xad\x01T\xd6W\xb18d8Ʈ\xbe^\xd3D0\x9b$B\xc2r^T\x8d\xc9c\xbbZ\x94\x94\xfd\xa7\xd0A\xbc\u0091+\xe7֧@\xa7O\xdaLs\x93\x06^\a\xc2_\xa5oG\xc4\xfdJ\xef]\x8c\xa6\x0f\x86W\xa9\xfaP>\xbc\f\xf8/D^\xc1\r\x9aBm\x00.k{\xcfX.w \xc1\x02\"\xddl\xe6T\x12\xaf\x0fﴧ\x1d\x18\xea\x03\x99\xbf2\xf3\x800\xb9\xdf-)\xd2.J\xf8\xecV\t\x81A\xe1k8\x8f\x8a\x809\xe0\xdb\x19:V\xb5\x91\x97\xa12\x91\f\xcfO\xe7}v\x83\x04]\x8b\"\xb0b\xaf0O\x81\xd0\x1a\xb8a\x9c\x00\xaa\x92Y\xb9m\x9b\xa7\x90\xf2Al\xd3\xear\xe3A\xd4D\x15\xe9\x1e\xb7\x15\xf4\xa6\xf5\xd5i\xd5G<\xad\xe2b\xdaKO\x15D\xf8\xc9\"~\x8e\xc1\xcf!)\x12\xdf\xe7\xfb\xa9+RpZ\xb0\xe0\x9e\xfbZ\xdfy\xfb\x0e\x13ۛQ\x81\xc0k\xaa6\xe5:ƭH\x9f\x0e\xe0\x13\x9fD\"O\x93Kqqg\xf5\xa4x\xf8X\xe8\xc6\xc1e\x9d\x88\xb9\xb6\xa7\xdcz\xa2\a\x8aU\x99\x80\xbf$2-a\t\xa7\x94\xf1\xa8^A\xc7]\x01\x14jM\xbf\x19ޱR)\xe6Gi\x87\a\x15wd\xd7U\rN%9\x12\x84\xdfI[\xc4\xee\xba\xf8x\tG\x9f\xc2\xcd+s\x8f\xb4\xaa\x84\xdb>\xb6\xc3J\xffF\x95\xdf\xc9S\xb9\xde\x13|\xe2.\xd4\t\xa3Yw\xf2\x0f\x91\xefަ\xed\xa9\xf1\xb4@\xf4S'\xfd\x97\x05*\xad=\x10-i\xa4,\x91;.\xe4\xf2\xeeL\xa0\x115t\x0f\xb4J\xcf)\xf2\x96\b\x9f\xc1\xa7\t\xed\xf4g.-\xe9\x90A\x0f\xfdX\x89\x06-\x93\xbe\xca\xf1\xc9/\xfe\xbcu\xe4\x89ि\xb2\a\xab\xc9\xffʉ\x93\x00\x96\xe8\xca\xf6K\x9a\xeby\x82\x8e\xc2p\xf0\xeb\x98\xde\x18@\x1a!\r\xe6\v\xfb\xe8\x1b\x8aM\x97\xe3y\xc4k\xf8\xa9\x1e\x89f_\xcd\xfd\xb2 \x97Ӛ\x9f\x1b", "cv\xd2DB\x19\xd2`i\xa2\x1a[8\xbb4N\xd4\xf5Z\x16\x0f&\x14\xf4\xcfe@\x84\x0eh\x9boX\x1c\xad\xfcTDE2\xbd\xbcD\xe77뇢C\xf6P~\x8e\x98:5V\f\x16g\\v\xf2mYw/\xc5L%D\xab\xbc\x93ߚ\xd5\xff\x06\xaf\xbe^\xc9r\x8d\xfe\xb8\xa3\x033\xf2\xe3\xf2[g\b\xe0\xdc\xf8գs$\x1d\xf9\xe2\xc5XU\x13\xb5\xeay\xf9\xfc\xd9d\x0ea\xad\xc3~\x9dN؎C%\x01\xa8f\x7f\xffL\x15\x8e`\xac\xb1g3\x94@/\x85zV\xaa\xe5\xc3\xd8\xcf\xe9\x11\xa0\xfd\x98iI\x99\x9b?qu_?\xf3\xfcY\xefM\xf0\x92\xf0\x8c\xad\x0eߋ\xca\xf7\x19:\x86\xa1\x96\xcde", ""},
	{1, 2, "\x9c\xf6=\xd1\xef\xa7J\xff\x17\x97\xa8\xbf\x94\x8f1\xefМ\x05\xddu\xa5\x92\xb9̉\x86[Y/\xe8\xd80F[U;\rs\xbb\x9d\x97\x9b\xf7\x89{\xb9\x03", "%\xa4\xea\xebhk\x92:\xc5ض\xa2(T\x1b\xc2;p]g\xe9&\xcaH&\x1aGwn\xfa]\x9a\a\x96B\xf9\xe6\xa3?\xb9\xd7\xd6\xefp5\x1d\x8b\xa8j\xedne\xf9\x8a\xbb^\x98_\xa3B\xb3\xfc\xf3у\xc0\x1f\xb7*2j\xe0\x842\xf1o\xb7\xa9\x81\xe212y\xa7\xd8\xe1\xd0\x04\xba\x9b\x8d\xa3W\x05\x84\xeb>\x90V\x90lZuH?\xe1\xd7aպe\\\x82\x94q(D\xaa)\xf9\xb8\xb2\xbfx\x84\xb6\xa2\xfc\x84\xb1{՜v\xdf4\xba\xbb\xbdYM{ݷ)\xa5y\x8d\xddb\xb1]\xe1\xf9\xd0\x1c+\\\x14\xe7d\x8b\"\x1aλ\x0eg\xb0<aa|\xfdf\x1cي\xc8\x14+hZd\xe2\xeb)\"\xef\x06[\xf5[\xed\x9dt\x9b\xba\x0f2\x9f`\x88z\xb8\xa8\v\ne\xc8|\x8ce\x1e=\x1f\x9d\x13\x90}ׅ\xbf┤\xbb\xfd˰\x1e\xb1\x06\xeb\x8c1\b\xf5Wvˎ{Ù\x15&{\xa5\x0e\xc5.Δ\x95{\x1d\xc6\xe4In\xafj\b\x93\xe4\xff\xff\x7fix\xe7\\e\xd9\xc3R\xbd\x83\xf8\xe8\x04\xae\x86H\x8f\x93\x85-\xb1\x14\xb2\xefPY\xa2\xeeB\x01\b\xcfr\x1d\x00\x91j\x01\x9a\x83\xce.\xc6]\x8b\xb3\xe9\xd1%\xf4\xe6\xa8K\x85o\xa2]b2¿\xcf8\xa3\x9f\xa4Ӱ\xed\xcc\xd0~\xb0\xc4t\x02Y\x94\xb4\xa8\x9an}\x936\xe3\xc9X0\xd2VD\x15\x9d\xf8ۅ\xc0ѭc\x94\xdb\xfa\x05\xeeGj\xe2\xd5\x14\xa6\xfbk\xc8\xd6Ƥm\xc0/\xd1\x7f\xa6\xe6\xd7!j\x02\xc7pU\xae3\xa3\xc8X\x93\x9b\x95a\x1e]\x1e\xa1j\x1d\xb2\\y\x14\xfb$\xd0r\xa1\xe9\xccbQ\x0f\xd4!\x87\x83\xdeS\x16nZ\xd2\xd8kE\x9a\a\xe2\xe6\xa3nP\xce\xf8\xb0\xe8\xd5Q\xea;J͞U\xa0\x96\xfe\xe9\xb3ϼ\x00\xaf\x02\xba\x05\xbaD\xfa]\xf7fgeI\xcbT~\xe8\xe0ٷ\xd0\xd8\x02\xdd\xe0(o\xd9K\xceü.\x1d,\xa4-~얗W\xd8\x17\xc3%:\xa8\xa8\xb7$\x12\xbd\x88\x8c\xc1\xa0\xfa\x060U\b\xc9Ed\x9d\x87\t\r\xe6~\xf7s\xcaES]e\x7f\xa4\xa1p\x1ce\xb7\xd7w\xf0\xd7[\x7f+!L", "cv\xd2DB\x19\xd2`i\xa2\x1a[8\xbb4N\xd4\xf5Z\x16\x0f&\x14\xf4\xcfe@\x84\x0eh\x9boX\x1c\xad\xfcTDE2\xbd\xbcD\xe77뇢C\xf6P~\x8e\x98:5V\f\x16g\\v\xf2mYw/\xc5L%D\xab\xbc\x93ߚ\xd5\xff\x06\xaf\xbe^\xc9r\x8d\xfe\xb8\xa3\x033\xf2\xe3\xf2[g\b\xe0\xdc\xf8գs$\x1d\xf9\xe2\xc5XU\x13\xb5\xeay\xf9\xfc\xd9d\x0ea\xad\xc3~\x9dN؎C%\x01\xa8f\x7f\xffL\x15\x8e`\xac\xb1g3\x94@/\x85zV\xaa\xe5\xc3\xd8\xcf\xe9\x11\xa0\xfd\x98iI\x99\x9b?qu_?\xf3\xfcY\xefM\xf0\x92\xf0\x8c\xad\x0eߋ\xca\xf7\x19:\x86\xa1\x96\xcde", ""},
	{1, 6, "#\xd53Q\xae\xc3]`LU:\xe3\x95]\xc8\x1dt\x99\x15\xb3\f\x80Y\x1b\xd3XȂW\xa2\x93\xd8\xf5+\x99ӊq\xe4۩\x8bk\xb5\x82-`c\xe7\t\xa1\x13\xc7b\xe5U\xa3Ҹ\x97i\xed\x8b%\x9e\xe5\xd6ß\xed4\xc0\xa8\x8a\xbcϚ\xfd\xab\x02", "0\xced\x0f\\\x1b\xf3\xd6Y\x1az\x95/$\n\xb9\x82\x18\xf0\x84\xedڲ\x9eJR\xf1*UXK\xabof\x9b\xe9p3u\xaa\x0f\xa4*\xb16\xd3\xd0möt\x9f\f\xa7\f\xd0\xdbl\x83\xf0~\xe9\xefU\xf5\x17\xae\x82\x9a\xda\xda\xec\ue448\xb3\xa9\xeb\xba\x1c\x8b\xe4\f\xf3l~:\xb5\x19\x8e\xa4h\x9b`(\x83\x14x\x7ff\\\xbf\xeb\x0f\xec\x93\xd1G%.\xe0̶\xb4\xb8\xa9\x14\xc5QJ/\xc8\xe65\x82h\x7f\xc3+2\x15%\x1df\xfaӶ\r\xaa\xd8z\x92<+>\xc0 \x04o\x06cv\xc6\xe9j\x95\x94\x9eKYh\xc3\xf6\xb6!\xa3\xe1\xd9L\xe8m\xed\xbfv\xffo\xc9(\xd2\x00\xe5\xe6\xac\\2\x06/V\x9d\xf5\xad\x03$\xceЛ\xcc#9\x8f\xb5<gIR\x7f\xfc\n\xecg\xbf\xbbTS{Y$\x06\x9d\x16\x8a\xafclq\x87\xe4\u05ce)\xa3\xec\xe1\x87\xe9\x8b\x10\x13\xe3\xb4m\x8c\xfe\xb0;\xd1\x1b\xf0bF\xa0)y`\x04B7\x141E\x06\xfdP\x92ј\x9e\xba\xcb\xfd\xf9\xf1\xfeE\x0f$\xb9\xa1fҶ%\xfd\xaa\xf1\x17\x8a^\xb4\xc0\xd1\xcd\xd6\xcfZ\xf5u\x8a\x05\x05ϡjl\xfcg!\x98K\xd9\tDj\x92\x15Eqh\x1d\xfd\xb0\xa9\x7f\r\xc1\x8b\x18\x10T\xf0\x87\xcd\xca}{_*J}zMW\x02(\x88\xdeq۟k<\x91\xbfP\xe4\xf2\u06dd,\xf8=\xba^\v\x99\xf0B\xd4Y\xfb\xf49\x15T\x80#uˇ\x19\x04\x01Lq\xc9\x16\xb3\x16\xf8\x89\xb5/1q\xe2\xc8\xc68O\fmE\x03\x0e[\xe3\xf16̀U\xb5\x15q\b\xc0\x97\x80(N\x83\xc3B\xb9\r<)r\xa9\xa2\xecy\x06\xb2|qF[\x01Fb\xf0\xe6Qx\x85\xc9\x11n\x1d\xb4\xa8\x89\xbaes\x8c\aa#l\xcc#9\xa7\xe6#\xea\x890\x01\xff%\xc8\xe4\x8aA;3\x93\xb8\x1djT\xbf,\x96\xe3\xcb\x1f\x12i\xbc\x87\x135\xbeݔ\xbe\x86ʟ\xff\xfc\b\x86\xe7\x8f\x00\x18d>\xfb\x84\x88|\x965\xae\xc4FM<h^\xec\x1de\xc0D0P;\x83\x99g𢙔ʴ\ty\xa6\x90\x91\xb7p9C\xdfr\x1ffO&\x95y\xd7Y\xc5O", "\xd7\x7f\x1bS\xf7r\\+\x11 e\x85\xa2\xe7\x99q\x19ho\xec\x1az\\\x9bE\xf8\rǳ\x918\xb2", "T\xc7\x1a\x17\xd6\xc3O\xf2\xa1\xe4\n\xaau\xd3tm\xe8\x01\xe6\x03[l\x00\x19\x94/\xa1\x1b\xad\x0e\xd2\xd9Z\x00\x1d%\fm\xa9%\xf54U\xfb`VK\x17\xafO\xaf\xce7\xa9]\x1b\x12HZ\x97&\x10\x92\xa6\x83\x0f\x15:-ő\xfc\x99k\xaf\x89\xac?\t\x11\xd3\x7f|%X\x8c\xadB\xec0\xa9\xe3$\\\xa6\xf9\xe31\xa6\x17Z\x17\xd1-\x96\xcd?\x05PЩ\xc8\xf6\xf3\xaa\xfb \xaa*\xbf\xe5 ($z#\x7f\f\x11\x86\x8a}\xbfV\x82\xf8\x90\xc0\x97\xb7]Cs\xc9 \xe9\xa3H{\xe5˂\xb4\xd3d\xa2\x8e.G\xd7z\x9d{P\x1d'9e.\x8c\xb4\xd2\xe9f\x18\xad\xdc\xf1\xb9\xb0\xd5\x0e2\xcfg\xa7\x90\aM;Z\x9a\x1cx\x93\xa9$m\xbd\x1cҟ/I\xd5=-\xc0ڬ\xb7\x8a\xd0,\x82\xf6\x06\x95?t\xbc\xf9:cc\xf38\xef\x1c@\xb8+\xb9?\x8c0rcjk\x1e^\xb6n\xfd\xaf\x15\xecGw\xba\xd2\xcf\xe6nq\x14\x16?\xe3\x11\xa3\b\x1aʮkh\xe6W\x0f\x975\x86\xd2-\xc1\x13\xf2\xf4O0\xa2\x16\xce2\x99\xf8[TK\xba\x153\xf4\x81\x0f6\x19\x8d\xa0[\xa7\xdaA\xe2G\xe6`]\xbe\xa7\x93\v\xb3y\x8e\xb2\x14a\xe3\xfe\xa1\x9b\xd3S\xf9y7\x7fq\xe7l\vw[J\x89EaN\xaa\xd8kӯ\x86\x01\x19\xb31\xbaA\xefi\xa2Oί\xe1\x19\xf4b\xa1ԡ\b\x87\x0e\x06<\xbbĜ\x9b\x1a\f\xa6W\x16\\\xc1س5.!gӖ?\xbb\x82\xab \x8b\x93\x98\x9c\xdb\vl\x1f\xf8`\xec\xceƛ\x11\xfe\xbb\xd9\x1aݞ$\t\xc7C[\xf0ʹ\x8f\xe2\xf7\xdf_$\xfa\x8b\xbe\xb5-\xb5\xec\xb8\x1c`p,\xb7\xc0\xf1^\xf3%\x87'\x99׀rz\x81G+߄i\x80_\r;^\xf5z\xf3\x12Ypf\x8f\xed\x1d\x1e\xc7\x15\xffh\xee\xb3j;C\xebdU\xecIy\v|\x7f\xe3\xcd\xfa\nQ\xa5\xaa\x9d\xccZ7\xdd\x7f\xa5\xfe\x9cF\x06-!>\xad\xc8\x18m;1\xc4Xe\xa7\xceC\xd4+r '\xb9u_~\x82\x8f&\xbe\xa9\nŠl\xa8\xd3@T\xbd8\x99\xbfU\xbb\x98\xafz\xf8{\xf0\xcb\x1e\xe7\xd0u\x1c\xed\xaeY\xeaG\x11\x8b\xfd\x14\x9e \xbf\xfb\xca\xe0o\x13\xd7ԡy$\x95\xfd\x10\xb1`>"},
}

// private key, public key, secret with the next one (cyclic)
var knownCsidh = [][3]string{
	{"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xef\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", "\xb8'\x0e\xeaJ0Th\"%\xf5x\xec\x1az\x1fE\xe3t\x19\xc5\rBp\xe8>\xa8\xdd\xday\x1a\xe0G\xd5hj%+i\xd6閹.N\x9a\x01\x06\xe0Cj\x9c\x1aA\xa4.D\xdb\xd3`H'\xa3\t", "(\x91y\xfa'jԉ\xd8륒Qd\x99\xa6~&\xfd[\xfe\xf2\x1dO\x8c:\x95\xbd1^\x00🠦P\x03猧QlJ\x16+\xda\x04\xa2\x88\x94\x1a\xf5?\xb9\xeeڽ\xf96_\xb2>\x8c\x16"},
	{"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x0e\x00\x00\x00\x00\x00\x00\x00\x05\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xe0\x00\x00\x00\x00", "v\xdc\x12\t\x8b\x97\x9e#\x01\x16\xb7v\xc2\xc3\xd4&\xfd\x88\x9b\xb6K\fͫ\x10y\x8aK\xb1\x86\xb7\xdcE\x8e9җDz\x14e\x1c\xb2P\xb5\xe32\xcc\xfa\xb7Q\xc0s\xa8?C\x0e\x8e\xff\v;\xb8\xad2", "\xf6^LӘ\x8f\xf1HM\x94ў\xf8\x8c\xe8\x1fB\x17Tt\x1f=\x86]x\x98\xe5\xec\xe3sU\xf8\xfeK\xe3\xf7\x137\x85\x8d:[\x81\x8a\xda>/\x9b\x02\xff\xd7H\u0084)\x13~\xe13\xcf\xe5\xc8b8"},
	{"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x000\x00\x00\x00\x10\x00\x00\x00\x00\x00\x00\x00\x00\x0f\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", "\xe5d@b\xb8\xbe\x81\xc7F%H\xb3\x1b/\x8a\xb8\x11\xe3\xae\xd0\x13\xfc\x13\xa1.p\xc8\xef\xffU\xe8Y\xbc\xa1p\x87\x8d#\xa7\xc1\xe0\xfc\x12\xc3wq\xfd\xf8\xcf8`\xff\xe4,1\xa0\x19\xd5a<\xbf1\x8d0", "\xb9\xda9Q\xfb\xbf^\xca'\xe6\xf3e\xc2\xfb\xc1}\xcd[j\r\xa7\x95\r_\x11\x9a\"i\xbae\xb0\x04\a[\xab\xef\xe8%\xcdR\xe1VaI\xf3\u0383Ss>\xcb\x1c\xc4ܵj\t\x1f\r\xdf\xe5\xe3@\x17"},
	{"\x00\x00\x00\x00\x00\x05\x0e\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x0e\x00\x00\x00\x00\x00\x00\x00\x00\x00\xd0\x00\x00\x00\x00", "y\xf5\ax\xc9<\xca̝B\x00\x94\x02܌\xf7b\b\x0e3\xe6\xd0G\r\x19<\x04^\xd4\xdb\xc1\v\xc6c{\x9eT/\x059\x14\xae\xed\xfcK\xa0\xfc\x98\xb7\xc2\x0e\xbbU\x19\xec\xe8pӵZ\xb1\xca\xf2\x05", "H\xdb\x02>\x81\xd7s\xeb[s\xa7>X\x8a\xba\xbb\x13<\x19Y\xf3\xf8\xe2\xd9dk\x86+\x98v\xb6\x9eg>P%\xe8GTT\x00`\xeav\xa6\x97\x00\x94\x14\x9fyKF,ٞ靼\xe8\xa1\awN"},
	{"\x00\x00\x01\x00\x00\x00\xf0\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x0e\x00\x00\x00\x00\x00\x00\xf0\x00\x00\x00\x00\x00\x00", "nP\xc1c\xd5\xc0\xab\x06-E\xfb'\x81rwc\xa7,|\xa4\xaa\xedT\x1fJ\"\x19ҹ<mʘ\xf3\"\xd6:\x14\x96\xa1\x114,\xe8\x13\x9eE-\x1a\x146\x013\x7f\x1d\x83\xe8z\x8f&û\"\b", "\xad\xea䜣f\xa2v\x03\xbd\xb6\xbb4\xec\xea\xef\xd8\vk\xda\xf8ϢIb\xe6\x0e|\xef\xf4\xae9\u008f4\x92\xc7\xe0\x8bx\x19\x94g\x80\xae~\x02\x96\x81\xcc(\xebq\x13;(\x82Ɨ>\x0f6\x8d:"},
	{"N\x13\xdb\x1e<\xbc\xdeP/\f\xe2\xe5\xcc\xfc\xf0?2\r\x1b\xd1\x03#\xf3B;L1\xb3\x05\x10^E\xdc]\xd1\xf1\xce", "FE9W\xc6>>}+X\n\x9d\xbejz\x02\x9c\xe5\\\xe9\xf23\xd4S\xee\xd4i\xaeWo\xaa\xfc\xca\x15\x17DG\x1c\x8b/{^.\xba\xc5O\xaa\x01t\xb7<\"Gu\u05f8\x1d\x1aG\xd9|x\t^", "\xf5\xb5z\xe5uN\xaa4?\x02\xd9d\xc1\x9d\x89\x81\xbe\xd9r\xa0k\xc17*<It\x9a\r\xcc$\x93)\xd3\xfb\x18}8\xfd\xbbfTIY\xa9ML\xb5t\x16e\fy\xc7\xeb\xf1Ry\xc5\x11Y\xdf9\x1a"},
}
