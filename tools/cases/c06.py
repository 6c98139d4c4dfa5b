A="api-keys.go"; V="api_versions.go"; K="kafka-client.go"
LOOP='''	for keyVer := range apiTable {
		parts := strings.Split(keyVer, ".")
		key, _ := strconv.Atoi(parts[0])
		ver, _ := strconv.Atoi(parts[1])
'''
CASES=[
("swap","kill",["C06"],[(A,"makeApiKey(ApiKeyHeartbeat, 0):       heartbeatV0","makeApiKey(ApiKeyHeartbeat, 0):       leaveGroupV0")]),
("alias","kill",["C06"],[(A,"makeApiKey(ApiKeyFetch, 2):           fetchV2,","makeApiKey(ApiKeyFetch, 2):           fetchV2,\n\t\tmakeApiKey(ApiKeyFetch, 0):           fetchV2,")]),
("drop0","kill",["C06"],[(V,"vr.min > -2","vr.min > 0")]),
("maxplus","kill",["C06"],[(V,"api.MaxVersion = vr.max","api.MaxVersion = vr.max + 1")]),
("minzero","kill",["C06"],[(V,"api.MinVersion = vr.min\n","")]),
("clamp","kill",["C06"],[(K,"k := makeApiKey(kafkaApiKey(hdr.RequestApiKey), int(hdr.RequestApiVersion))","ver := int(hdr.RequestApiVersion)\n\tif vr, ok := apiVersions[kafkaApiKey(hdr.RequestApiKey)]; ok && ver > int(vr.max) {\n\t\tver = int(vr.max)\n\t}\n\tk := makeApiKey(kafkaApiKey(hdr.RequestApiKey), ver)")]),
("sepless","kill",["C06"],[(A,'fmt.Sprintf("%d.%d", apiKey, version)','fmt.Sprintf("%d%d", apiKey, version)'),(A,LOOP,'''	for keyVer := range apiTable {
		key, _ := strconv.Atoi(keyVer[:len(keyVer)-1])
		ver, _ := strconv.Atoi(keyVer[len(keyVer)-1:])
'''),(A,'\t"strings"\n','')]),
("hidden","kill",["C06"],[(V,"if vr.min > -2 {","if vr.min > -2 && key != ApiKeyHeartbeat {")]),
("itoa","quiet",["C06"],[(A,'fmt.Sprintf("%d.%d", apiKey, version)','strconv.Itoa(int(apiKey)) + "." + strconv.Itoa(version)'),(A,'\t"fmt"\n','')]),
("register","quiet",["C06"],[(A,"		makeApiKey(ApiKeyFetch, 2):           fetchV2,\n",""),(A,"	apiVersions = map[kafkaApiKey]versionRange{}\n",'''	registerApi(ApiKeyFetch, 2, fetchV2)
	apiVersions = map[kafkaApiKey]versionRange{}
'''),(A,None,'''
func registerApi(key kafkaApiKey, version int, handler dispatchHandler) {
	apiTable[makeApiKey(key, version)] = handler
}
''')]),
("ranges","quiet",["C06"],[(A,"		vr, exists := apiVersions[kafkaApiKey(key)]\n		if !exists {","		if vr, exists := apiVersions[kafkaApiKey(key)]; !exists {")]),
("helper","quiet",["C06"],[(V,'''		api := apiKeyV0{ApiKey: int16(k)}
		vr := apiVersions[kafkaApiKey(k)]
		if vr.min != -1 {
			api.MinVersion = vr.min
			api.MaxVersion = vr.max
		}
		apis = append(apis, api)
''','''		apis = append(apis, apiEntry(k))
'''),(V,None,'''
func apiEntry(k int) (api apiKeyV0) {
	api.ApiKey = int16(k)
	if vr := apiVersions[kafkaApiKey(k)]; vr.min != -1 {
		api.MinVersion, api.MaxVersion = vr.min, vr.max
	}
	return
}
''')]),
("indexed","quiet",["C06"],[(V,"apis := make([]apiKeyV0, 0, len(keys))\n	for _, k := range keys {","apis := make([]apiKeyV0, len(keys))\n	for i, k := range keys {"),(V,"apis = append(apis, api)","apis[i] = api")]),
]
