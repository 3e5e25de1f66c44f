// Stand-in for the Klepsydra SDK (not part of /repo, absent here), written from its uses in /repo and its tests.
#pragma once
#include <string>
namespace kpsr {
static const std::string DEFAULT_ROOT = "";
class Environment
{
public:
    virtual ~Environment() {}
    virtual bool getPropertyString(const std::string &key, std::string &value, std::string const &defaultValue = "", const std::string &rootNode = DEFAULT_ROOT) = 0;
    virtual bool getPropertyInt(const std::string &key, int &value, const int defaultValue = 0, const std::string &rootNode = DEFAULT_ROOT) = 0;
    virtual bool getPropertyFloat(const std::string &key, float &value, const float defaultValue = 0.0f, const std::string &rootNode = DEFAULT_ROOT) = 0;
    virtual bool getPropertyBool(const std::string &key, bool &value, const bool defaultValue = false, const std::string &rootNode = DEFAULT_ROOT) = 0;
    virtual void setPropertyString(const std::string &key, const std::string &value, const std::string &rootNode = DEFAULT_ROOT) = 0;
    virtual void setPropertyInt(const std::string &key, const int &value, const std::string &rootNode = DEFAULT_ROOT) = 0;
    virtual void setPropertyFloat(const std::string &key, const float &value, const std::string &rootNode = DEFAULT_ROOT) = 0;
    virtual void setPropertyBool(const std::string &key, const bool &value, const std::string &rootNode = DEFAULT_ROOT) = 0;
    virtual bool loadFile(const std::string &fileName, const std::string &nodeName) = 0;
};
} // namespace kpsr
